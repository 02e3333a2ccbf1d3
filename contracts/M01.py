from ext_common import *
VI = vec_sort(z3.IntSort())


def _lev(a, b, j, i):
    d = lev(a, b, j - 1, i) + 1
    u = lev(a, b, j, i - 1) + 1
    s = lev(a, b, j - 1, i - 1) + z3.If(vat(a, j - 1) == vat(b, i - 1), 0, 1)
    m = z3.If(u < d, u, d)
    return z3.If(i <= 0, j, z3.If(j <= 0, i, z3.If(s < m, s, m)))


# edit distance of the first j symbols of a and the first i symbols of b
lev = RecFn("lev", [VI, VI, z3.IntSort(), z3.IntSort()], z3.IntSort(), _lev, depth=1)
SS = "SufficientStats::"


def build_wer(u):
    cs = []
    row = "forall(lambda k: implies(0<=k and k<=%s, edit[(%s%%2)*(len(a)+1)+k]==lev(a,b,k,%s)), pat=edit[(%s%%2)*(len(a)+1)+k])"
    cs.append(Contract("cdec::LevenshteinDistance", params="a b".split(), requires=["len(a)<1000000 and len(b)<1000000"],
        ensures=[("least number of insertions, deletions and substitutions", "result==lev(a,b,len(a),len(b))")],
        loops=[["len(edit)==2*(len(a)+1)", "implies(i>0, forall(lambda k: implies(0<=k and k<=len(a), edit[((i-1)%2)*(len(a)+1)+k]==lev(a,b,k,i-1) and lev(a,b,k,i-1)<=k+i-1), pat=lev(a,b,k,i-1)))"],
               ["len(edit)==2*(len(a)+1)", "forall(lambda k: implies(0<=k and k<j, edit[(i%2)*(len(a)+1)+k]==lev(a,b,k,i) and lev(a,b,k,i)<=k+i), pat=lev(a,b,k,i))",
                "implies(i>0, forall(lambda k: implies(0<=k and k<=len(a), edit[((i-1)%2)*(len(a)+1)+k]==lev(a,b,k,i-1) and lev(a,b,k,i-1)<=k+i-1), pat=lev(a,b,k,i-1)))"]]))
    return cs



best = ("implies(len(refs)>0, exists(lambda i: 0<=i and i<len(refs) and out.fields[0]==real(LEV(i)) and out.fields[1]==real(LEN(i))"
        " and forall(lambda k: implies(0<=k and k<len(refs), LEV(i)<=LEV(k)), pat=refs[k])))")


def metric(u, q, LEV, LEN):
    def sub(t):
        import re
        return re.sub(r"LEN\((\w+)\)", lambda m: LEN % m.group(1), re.sub(r"LEV\((\w+)\)", lambda m: LEV.replace("%s", m.group(1)), t))
    return Contract(q, params="hyp refs out".split(), requires=["len(hyp)<100000 and len(refs)<1000000 and forall(lambda k: implies(0<=k and k<len(refs), len(refs[k])<100000), pat=refs[k])"],
        modifies=["out"],
        ensures=[("two statistics", "len(out.fields)==2"),
                 ("edit distance and length of the closest reference", sub(best))],
        loops=[["len(out.fields)==2", sub("implies(_i>0, exists(lambda i: 0<=i and i<_i and out.fields[0]==real(LEV(i)) and out.fields[1]==real(LEN(i)) and best_score==real(LEV(i))"
                " and forall(lambda k: implies(0<=k and k<_i, LEV(i)<=LEV(k)), pat=refs[k])))")]], opts={"objptr": ["out"]})


def build_wer_m(u):
    cs = build_wer(u)
    for c in cs:
        c.verify = False
    cs.append(metric(u, "WERMetric::ComputeSufficientStatistics", "lev(hyp,refs[%s],len(hyp),len(refs[%s]))".replace("%s]))", "%s]))"), "len(refs[%s])"))
    return cs



td_string = z3.Function("td_string", VI, VI)
FUNCS["td_string"] = lambda env, v: td_string(v)


def build_cer_m(u):
    cs = build_wer(u)
    for c in cs:
        c.verify = False
    cs.append(Contract("TD::GetString", params=["str"], ensures=["result==td_string(str)", "len(result)<1000000"], verify=False, sig=lambda f: len(f["pt"]) == 1))
    cs.append(metric(u, "CERMetric::ComputeSufficientStatistics", "lev(td_string(hyp),td_string(refs[%s]),len(td_string(hyp)),len(td_string(refs[%s])))", "len(td_string(refs[%s]))"))
    return cs


F = "ite(%s<len(%s.fields), %s.fields[%s], real(0))"
macro("fld", "s i", "ite(0<=i and i<len(s.fields), s.fields[i], real(0))")


def build_ss(u):
    cs = []
    for op, sg in (("+=", "+"), ("-=", "-")):
        # the loop only reads fields the argument still has to contribute, so x += x is fine too
        cs.append(Contract(SS + "operator" + op, params=["delta"], modifies=["this"],
            requires=["len(this.fields)<100000 and len(delta.fields)<100000"],
            ensures=[("as long as the longer operand", "len(this.fields)==max(len(old(this.fields)),len(delta.fields))"),
                     ("fieldwise", "forall(lambda i: implies(0<=i and i<len(this.fields), this.fields[i]==fld(old(this),i)%sfld(delta,i)), pat=this.fields[i])" % sg),
                     ("returns itself", "result==this"),
                     ("name kept or taken over", "this.id_==ite(len(old(this.id_))==0, ite(len(delta.id_)>0, delta.id_, old(this.id_)), old(this.id_))")],
            loops=[["len(this.fields)==len(entry(this.fields)) and this.id_==entry(this.id_)",
                    "forall(lambda k: implies(0<=k and k<len(this.fields), this.fields[k]==ite(k<i, entry(this.fields)[k]%sdelta.fields[k], entry(this.fields)[k])), pat=this.fields[k])" % sg]]))
    cs.append(Contract(SS + "operator*=", params=["scalar"], modifies=["this.fields"], requires=["len(this.fields)<100000"],
        ensures=[("every field scaled", "len(this.fields)==len(old(this.fields)) and forall(lambda i: implies(0<=i and i<len(this.fields), this.fields[i]==old(this.fields)[i]*scalar), pat=this.fields[i])"), ("returns itself", "result==this")],
        loops=[["len(this.fields)==len(entry(this.fields))", "forall(lambda k: implies(0<=k and k<len(this.fields), this.fields[k]==ite(k<i, entry(this.fields)[k]*scalar, entry(this.fields)[k])), pat=this.fields[k])"]]))
    cs.append(Contract(SS + "operator/=", params=["scalar"], modifies=["this.fields"], requires=["len(this.fields)<100000", "scalar!=0"],
        ensures=[("every field scaled", "len(this.fields)==len(old(this.fields)) and forall(lambda i: implies(0<=i and i<len(this.fields), this.fields[i]==old(this.fields)[i]/scalar), pat=this.fields[i])"), ("returns itself", "result==this")],
        loops=[["len(this.fields)==len(entry(this.fields))", "forall(lambda k: implies(0<=k and k<len(this.fields), this.fields[k]==ite(k<i, entry(this.fields)[k]/scalar, entry(this.fields)[k])), pat=this.fields[k])"]]))
    cs.append(Contract(SS + "IsAdditiveIdentity", requires=["len(this.fields)<100000"], ensures=[("all fields zero", "result==forall(lambda i: implies(0<=i and i<len(this.fields), this.fields[i]==real(0)), pat=this.fields[i])")],
        loops=[["forall(lambda k: implies(0<=k and k<i, this.fields[k]==real(0)), pat=this.fields[k])"]]))
    cs.append(Contract(SS + "operator[]", params=["i"], ensures=[("field or zero", "result==fld(this,i)")]))
    cs.append(Contract(SS + "operator==", params=["other"], ensures=[("fields equal", "result==(len(this.fields)==len(other.fields) and forall(lambda i: implies(0<=i and i<len(this.fields), this.fields[i]==other.fields[i]), pat=this.fields[i]))")]))
    return cs


VB = vec_sort(z3.BoolSort())
IS = z3.IntSort()


def cell(d, w, h, i, j):
    return z3.And(0 <= i, i < w, 0 <= j, j < h, vat(d, i + j * w))


# links of grid (d,w,h) in column i, rows below n; and in the columns below n
colc = RecFn("col_links", [VB, IS, IS, IS, IS], IS, lambda d, w, h, i, n: z3.If(n <= 0, 0, colc(d, w, h, i, n - 1) + z3.If(cell(d, w, h, i, n - 1), 1, 0)))
gridc = RecFn("grid_links", [VB, IS, IS, IS], IS, lambda d, w, h, n: z3.If(n <= 0, 0, gridc(d, w, h, n - 1) + colc(d, w, h, n - 1, h)))
# those also present in grid (e,v,g)
colm = RecFn("col_common", [VB, IS, IS, VB, IS, IS, IS, IS], IS, lambda d, w, h, e, v, g, i, n: z3.If(n <= 0, 0, colm(d, w, h, e, v, g, i, n - 1) + z3.If(z3.And(cell(d, w, h, i, n - 1), cell(e, v, g, i, n - 1)), 1, 0)))
gridm = RecFn("grid_common", [VB, IS, IS, VB, IS, IS, IS], IS, lambda d, w, h, e, v, g, n: z3.If(n <= 0, 0, gridm(d, w, h, e, v, g, n - 1) + colm(d, w, h, e, v, g, n - 1, h)))


def build_aer(u):
    cs = []
    cs.append(Contract("Array2D::operator()", params=["i", "j"], requires=["0<=i and i<this.width_ and 0<=j and j<this.height_"], returns_lv="this.data_[i+j*this.width_]", verify=False))
    cs.append(Contract("TD::GetString", params=["str"], ensures=["result==td_string(str)"], verify=False, sig=lambda f: len(f["pt"]) == 1))
    cs.append(Contract("AlignmentIO::ReadPharaohAlignmentGrid", params=["al"], ensures=["result.nonnull", "1<=result.val.width_ and result.val.width_<30000", "1<=result.val.height_ and result.val.height_<30000"], verify=False))
    cs.append(Contract("boost::intrusive_ptr::intrusive_ptr", params=["p", "add_ref"], requires=["not null(p)"], verify=False))
    R, Hh = "this.ref_.val.data_,this.ref_.val.width_,this.ref_.val.height_", "hyp.val.data_,hyp.val.width_,hyp.val.height_"
    nn = "hyp.nonnull"
    cs.append(Contract("AERScorer::ScoreCandidate", params=["shyp"], requires=["this.ref_.nonnull", "1<=this.ref_.val.width_ and this.ref_.val.width_<30000 and 1<=this.ref_.val.height_ and this.ref_.val.height_<30000"],
        ensures=[],
        loops=[["r==grid_links(%s,i)" % R, "m==grid_common(%s,%s,i)" % (R, Hh), "0<=m and m<=r and r<=i*j_len"],
               ["r==entry(r)+col_links(%s,i,j)" % R, "m==entry(m)+col_common(%s,%s,i,j)" % (R, Hh), "entry(m)<=m and m-entry(m)<=r-entry(r) and r<=entry(r)+j"],
               ["p==grid_links(%s,i)" % Hh, "0<=p and p<=i*hyp.val.height_"],
               ["p==entry(p)+col_links(%s,i,j)" % Hh, "entry(p)<=p and p<=entry(p)+j"]],
        opts={"at_call": {"AERScore::AERScore": [("matches", "m==grid_common(%s,%s,this.ref_.val.width_)" % (R, Hh)), ("reference links", "r==grid_links(%s,this.ref_.val.width_)" % R), ("predicted links", "p==grid_links(%s,hyp.val.width_)" % Hh)]}}))
    cs.append(Contract("AERScore::AERScore", params="m p r".split(), ensures=[("matches", "this.num_matches==m"), ("predicted", "this.num_predicted==p"), ("reference", "this.num_in_ref==r")], sig=lambda f: len(f["pt"]) == 3))
    return cs


PROPERTY = Property("M01", [UnitSpec("mteval/ns_wer.cc", build_wer, ["cdec::LevenshteinDistance"]),
   UnitSpec("mteval/ns_cer.cc", build_wer, ["cdec::LevenshteinDistance"]),
   UnitSpec("mteval/ns_wer.cc", build_wer_m, ["WERMetric::ComputeSufficientStatistics"]),
   UnitSpec("mteval/ns_cer.cc", build_cer_m, ["CERMetric::ComputeSufficientStatistics"]),
   UnitSpec("mteval/aer_scorer.cc", build_aer, ["AERScorer::ScoreCandidate", "AERScore::AERScore"], opts={"opaque": {"boost::intrusive_ptr"}}),
   UnitSpec("mteval/ns.cc", build_ss, [SS + "operator" + x for x in ("+=", "-=", "*=", "/=", "==", "[]")] + [SS + "IsAdditiveIdentity"]),
], driver=Driver("m01.cc", sources=["mteval/" + x for x in "ns.cc ns_cer.cc ns_wer.cc ns_ter.cc ns_ter_impl.cc ns_ext.cc ns_comb.cc ns_ssk.cc scorer.cc aer_scorer.cc wer.cc ter.cc comb_scorer.cc external_scorer.cc".split() if x] + ["utils/" + x for x in "tdict.cc filelib.cc gzstream.cc stringlib.cc alignment_io.cc".split()], secs=25, libs=["-lz"]),
  bounded=["BLEU statistics and scores (ns.cc, scorer.cc), sentence scorers of scorer.cc and wer.cc"])
