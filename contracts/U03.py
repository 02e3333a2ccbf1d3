from api import *
R_ = z3.RealSort()
EXP, LOG, L1P = mathfn("exp"), mathfn("log"), mathfn("log1p")
INF = z3.Real("m_infinity")
FUNCS["inf"] = lambda env: INF
FUNCS["EXP"] = lambda env, x: EXP(x)
FUNCS["LOG"] = lambda env, x: LOG(x)
FUNCS["L1P"] = lambda env, x: L1P(x)
# the number a LogVal stands for; -infinity is the logarithm of zero
macro("val", "x", "ite(x.v_==0-inf(), real(0), ite(x.s_, 0-EXP(x.v_), EXP(x.v_)))")
macro("num", "x", "0-inf()<=x.v_ and x.v_<inf()")          # an ordinary number: not a NaN, not infinite
macro("nz", "x", "0-inf()<x.v_ and x.v_<inf()")            # ... and not zero
macro("sv", "x", "ite(x.s_, 0-EXP(x.v_), EXP(x.v_))")      # value of a nonzero LogVal

X, Y, Z = ("x", R_), ("y", R_), ("z", R_)
AX = [Lemma("exp_pos", [X], [], ["EXP(x)>real(0)"], pats=["EXP(x)"], assume="exp is positive"),
      Lemma("exp_mono", [X, Y], ["x<y"], ["EXP(x)<EXP(y)"], pats=["EXP(x),EXP(y)"], assume="exp is increasing"),
      Lemma("exp_add", [X, Y, Z], ["z==x+y"], ["EXP(z)==EXP(x)*EXP(y)"], pats=["EXP(x),EXP(y),EXP(z)"], assume="exp(x+y)=exp(x)exp(y)"),
      Lemma("exp_log", [X], ["x>real(0)"], ["EXP(LOG(x))==x", "0-inf()<LOG(x)", "LOG(x)<inf()"], pats=["LOG(x)"], assume="exp(log(x))=x for positive x"),
      Lemma("log_0", [X], ["x==real(0)"], ["LOG(x)==0-inf()"], pats=["LOG(x)"], assume="log(0) is -infinity"),
      Lemma("exp_0", [X], ["x==real(0)"], ["EXP(x)==real(1)"], pats=["EXP(x)"], assume="exp(0)=1"),
      Lemma("exp_log1p", [X, Y, Z], ["x>real(0)-1", "z==y+L1P(x)"], ["EXP(z)==EXP(y)*(1+x)"], pats=["L1P(x),EXP(y),EXP(z)"], assume="exp(y+log1p(x))=exp(y)(1+x)")]
N = [l.name for l in AX]


def build(u):
    L = "LogVal::"
    U1 = {"uses": N}
    CMP = {"uses": ["exp_pos", "exp_mono"]}
    cs = []
    add = ["num(a)", "a.v_==0-inf() or nz(this)", "a.v_==0-inf() or not (this.s_!=a.s_ and this.v_==a.v_)"]
    lv = lambda f: "LogVal" in str(f["pt"])
    dbl = lambda f: list(f["pt"]) == ["double"]
    cs.append(Contract(L + "operator+=", params=["a"], modifies=["this"], requires=add, returns_lv="this",
        ensures=[("sum", "implies(a.v_!=0-inf(), sv(this)==sv(old(this))+sv(a))"), ("adding zero", "implies(a.v_==0-inf(), this==old(this))")], opts=U1))
    cs.append(Contract(L + "operator*=", params=["a"], modifies=["this"], requires=["nz(this)", "nz(a)"], returns_lv="this", ensures=[("product", "sv(this)==sv(old(this))*sv(a)"), "this.s_==(old(this.s_)!=a.s_)", "this.v_==old(this.v_)+a.v_"], opts=U1))
    cs.append(Contract(L + "operator/=", params=["a"], modifies=["this"], requires=["nz(this)", "nz(a)"], returns_lv="this", ensures=[("quotient", "sv(this)*sv(a)==sv(old(this))")], opts=U1))
    cs.append(Contract(L + "operator-=", params=["a"], modifies=["this"], requires=["num(a)", "a.v_==0-inf() or nz(this)", "a.v_==0-inf() or not (this.s_==a.s_ and this.v_==a.v_)"], returns_lv="this",
        ensures=[("difference", "implies(a.v_!=0-inf(), sv(this)==sv(old(this))-sv(a))"), ("subtracting zero", "implies(a.v_==0-inf(), this==old(this))")], opts=U1))
    cs.append(Contract(L + "LogVal", params=["x"], modifies=["this"], ensures=[("value of a number", "val(this)==x"), ("sign", "this.s_==(x<0)")], opts=U1, sig=dbl))
    cs.append(Contract(L + "operator=", params=["x"], modifies=["this"], returns_lv="this", ensures=[("value of a number", "val(this)==x"), ("sign", "this.s_==(x<0)")], opts=U1, sig=dbl))
    cs.append(Contract(L + "as_float", requires=["nz(this)"], ensures=[("value", "result==val(this)")]))
    cs.append(Contract(L + "negate", modifies=["this"], ensures=["this.s_==(not old(this.s_))", "this.v_==old(this.v_)", ("opposite", "val(this)==0-val(old(this))")]))
    cs.append(Contract(L + "operator-", ensures=[("opposite", "val(result)==0-val(this)")]))
    cs.append(Contract(L + "inverse", requires=["nz(this)"], ensures=[("reciprocal", "sv(result)*sv(this)==real(1)")], opts=U1))
    cs.append(Contract(L + "is_0", ensures=["result==(this.v_==0-inf())", ("zero", "result==(val(this)==real(0))")], opts=CMP))
    cs.append(Contract(L + "is_1", requires=["num(this)"], ensures=[("one", "result==(val(this)==real(1))")], opts=U1))
    cs.append(Contract(L + "lt", params=["o"], requires=["num(this)", "num(o)"], ensures=[("order of the numbers", "result==(val(this)<val(o))")], opts=CMP))
    cs.append(Contract(L + "gt", params=["o"], requires=["num(this)", "num(o)"], ensures=[("order of the numbers", "result==(val(this)>val(o))")], opts=CMP))
    for op in ("==", "!=", "<", "<=", ">", ">="):
        cs.append(Contract("operator" + op, params="lhs rhs".split(), requires=["num(lhs)", "num(rhs)"], ensures=[("order of the numbers", "result==(val(lhs)%sval(rhs))" % op)], opts=CMP))
    b = {"+": ["num(o2)", "o2.v_==0-inf() or nz(o1)", "o2.v_==0-inf() or not (o1.s_!=o2.s_ and o1.v_==o2.v_)"], "-": ["num(o2)", "o2.v_==0-inf() or nz(o1)", "o2.v_==0-inf() or not (o1.s_==o2.s_ and o1.v_==o2.v_)"], "*": ["nz(o1)", "nz(o2)"], "/": ["nz(o1)", "nz(o2)"]}
    for op in "+-":
        cs.append(Contract("operator" + op, params="o1 o2".split(), requires=b[op], ensures=[("value", "implies(o2.v_!=0-inf(), sv(result)==sv(o1)%ssv(o2))" % op), "implies(o2.v_==0-inf(), result==o1)"], opts=U1, sig=lv))
    cs.append(Contract("operator*", params="o1 o2".split(), requires=b["*"], ensures=[("value", "sv(result)==sv(o1)*sv(o2)")], opts=U1, sig=lv))
    cs.append(Contract("operator/", params="o1 o2".split(), requires=b["/"], ensures=[("value", "sv(result)*sv(o2)==sv(o1)")], opts=U1))
    cs.append(Contract("abs", params=["o"], ensures=[("magnitude", "val(result)==ite(val(o)<real(0), 0-val(o), val(o))")], opts=CMP))
    P = "PRPair::"
    # values are pairs (p, r); the product follows the rule for first-order expectations
    cs.append(Contract(P + "operator+=", params=["o"], modifies=["this"], returns_lv="this", ensures=[("sum", "this.p==old(this.p)+o.p and this.r==old(this.r)+o.r")]))
    cs.append(Contract(P + "operator*=", params=["o"], modifies=["this"], returns_lv="this", ensures=[("product", "this.p==old(this.p)*o.p and this.r==old(this.p)*o.r+old(this.r)*o.p")]))
    cs.append(Contract("operator+", params="a b".split(), ensures=[("sum", "result.p==a.p+b.p and result.r==a.r+b.r")], sig=lambda f: "PRPair" in str(f["pt"])))
    cs.append(Contract("operator*", params="a b".split(), ensures=[("product", "result.p==a.p*b.p and result.r==a.p*b.r+a.r*b.p")], sig=lambda f: "PRPair" in str(f["pt"])))
    return cs


M = "operator+= operator-= operator*= operator/= operator= LogVal as_float negate operator- inverse is_0 is_1 lt gt".split()
F = "operator+ operator- operator* operator/ operator== operator!= operator< operator<= operator> operator>= abs".split()
PROPERTY = Property("U03", [UnitSpec("/verif/harness/u03.cc", build, ["LogVal::" + m for m in M] + F + ["PRPair::operator+=", "PRPair::operator*="], lemmas=lambda u: AX)],
    driver=Driver("u03.cc", [], secs=15),
    bounded=["operations with zero or infinite operands, poweq, root, exp, log, hash_value, star of nonnegative numbers: random values against double arithmetic"], bounded_secs=5)
