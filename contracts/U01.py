from api import *
I_, R_ = z3.IntSort(), z3.RealSort()
macro("get", "m k", "ite(m.dom[k], m.val[k], real(0))")


def pairsort(u):
    return u.sort(PAIRKEY)


# -- the representation: a local array of pairs, or a hash map on the heap ------------------------------------------------
class Rep(STL):
    """PairIntT<T> is treated as the pair<unsigned,T> it stands for: its reinterpret_casts are dropped"""

    def __init__(self):
        STL.__init__(self)
        self.extra_calls["PairIntT::first"] = lambda ex, fn, e, st: self.objlv(ex, e, st).ext(("f", "first"))
        self.extra_calls["PairIntT::operator="] = self.assign_pair
        self.extra_calls["PairIntT::second"] = lambda ex, fn, e, st: self.objlv(ex, e, st).ext(("f", "second"))

    def assign_pair(self, ex, fn, e, st):
        lv = self.objlv(ex, e, st)
        src = ex.x_any(e["args"][0], st)
        if not isinstance(src, LV):
            raise VCError("assignment to PairIntT")
        a, b = ex.read(st, src.ext(("f", "first"))), ex.read(st, src.ext(("f", "second")))
        ex.write(st, lv, dtinfo(ex.read(st, lv).sort()).ctor(a, b))
        return lv

    def ctor(self, ex, fn, tkey, args, e, st):
        if ex.u.kind(tkey) == "map" and len(args) >= 2 and "pair" in str(args[0].get("t", "")):
            a, b = ex.as_idxptr(ex.eval(args[0], st)), ex.as_idxptr(ex.eval(args[1], st))
            src = ex.read(st, a.base)
            d = dtinfo(ex.u.sort(tkey))
            ex.oblige(st, "range of pairs valid", And(a.idx >= 0, a.idx <= b.idx, b.idx <= vlen(src)), "bounds", e["l"])
            i, j, k = z3.Ints("i j k")
            f = lambda x: acc(vat(src, x), "first")
            ex.oblige(st, "keys of the range are distinct", z3.ForAll([i, j], z3.Implies(z3.And(a.idx <= i, i < j, j < b.idx), f(i) != f(j))), "safety", e["l"])
            m = ex.fresh("rangemap", d.sort)
            w = z3.Function("at!%d" % ex.tmpn, I_, I_)
            ex.tmpn += 1
            sa = acc(src, "arr")
            ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(a.idx <= i, i < b.idx), z3.And(sel(acc(m, "dom"), f(i)), sel(acc(m, "val"), f(i)) == acc(vat(src, i), "second"))), patterns=[z3.Select(sa, i)]))
            ex.facts.append(z3.ForAll([k], z3.Implies(z3.Select(acc(m, "dom"), k), z3.And(a.idx <= w(k), w(k) < b.idx, f(w(k)) == k)), patterns=[z3.Select(acc(m, "dom"), k)]))
            ex.facts.append(acc(m, "size") == b.idx - a.idx)
            ex.trusted.add("a hash map built from a range of pairs with distinct keys holds exactly those pairs")
            return m
        return STL.ctor(self, ex, fn, tkey, args, e, st)


def prep(u):
    for k, t in u.types.items():
        if t.get("k") == "rec" and t.get("name") == "PairIntT":
            u.overrides[k] = mk_dt("PairIntT", [("first", I_), ("second", R_)])
    for k, t in u.types.items():
        if t.get("k") == "rec" and t.get("name") == "std::unordered_map" and t["args"][1] == "double":
            HEAPNAMES["Map"] = k


macro("okl", "v", "v.local_size_<=7 and len(v.data_.local)==7 and forall(lambda i, j: implies(0<=i and i<j and j<v.local_size_, v.data_.local[i].first!=v.data_.local[j].first), pat=(v.data_.local[i],v.data_.local[j]))")
macro("okr", "v", "v.data_.rbmap.off==0 and 0<v.data_.rbmap.blk and v.data_.rbmap.blk<ALLOC and len(HEAP_Map[v.data_.rbmap.blk])==1")
macro("ok", "v", "ite(v.is_remote_, okr(v), okl(v))")
macro("rmap", "v", "HEAP_Map[v.data_.rbmap.blk][0]")
macro("has", "v k", "ite(v.is_remote_, rmap(v).dom[k], mem(v.data_.local,v.local_size_,k))")
macro("ent", "v k", "ite(v.is_remote_, ite(rmap(v).dom[k], rmap(v).val[k], real(0)), lk(v.data_.local,v.local_size_,k))")


def build(u):
    S = "FastSparseVector::"
    LS = None
    for k, t in u.types.items():
        if t.get("k") == "array" and "PairIntT" in str(t.get("to")):
            LS = u.sort(k)
    mem = RecFn("mem", [LS, I_, I_], z3.BoolSort(), lambda a, n, k: z3.If(n <= 0, z3.BoolVal(False), z3.Or(acc(vat(a, n - 1), "first") == k, mem(a, n - 1, k))))
    lk = RecFn("lk", [LS, I_, I_], R_, lambda a, n, k: z3.If(n <= 0, z3.RealVal(0), z3.If(acc(vat(a, n - 1), "first") == k, acc(vat(a, n - 1), "second"), lk(a, n - 1, k))))
    cs = []
    C = lambda n, **k: cs.append(Contract(S + n, **k))
    C("value", params=["k"], requires=["ok(this)"], ensures=[("entry or zero", "result==ent(this,k)")], loops=[["not mem(this.data_.local,i,k)"]], opts={"uses": ["lk_mem", "lk_at"]})
    FR = ("other maps kept", "forall(lambda b: implies(0<=b and b<old(ALLOC) and not (old(this.is_remote_) and b==old(this.data_.rbmap.blk)), HEAP_Map[b]==old(HEAP_Map)[b]), pat=HEAP_Map[b])")
    OWN = ("consistent state", "ok(this) and implies(this.is_remote_, this.data_.rbmap.blk>=old(ALLOC) or (old(this.is_remote_) and this.data_.rbmap.blk==old(this.data_.rbmap.blk)))")
    FRESH = ("consistent state", "ok(this) and implies(this.is_remote_, this.data_.rbmap.blk>=old(ALLOC))")
    H = ["this", "heap:Map"]
    SEP = "implies(this.is_remote_ and other.is_remote_, this.data_.rbmap.blk!=other.data_.rbmap.blk)"
    SAMEOTHER = ("same entries as the other", "forall(lambda q: has(this,q)==old(has(other,q)) and ent(this,q)==old(ent(other,q)))")
    L = {"uses": ["lk_mem", "lk_at", "lk_frame", "mem_ix", "mem_wit"]}
    C("swap_local_rbmap", requires=["not this.is_remote_", "ok(this)"], modifies=H, ensures=[OWN, FR, "this.is_remote_", ("same keys", "forall(lambda q: has(this,q)==old(has(this,q)))"), ("same entries", "forall(lambda q: ent(this,q)==old(ent(this,q)))")], opts=L)
    C("get_or_create_bin", params=["k"], requires=["ok(this)"], modifies=H, ensures=[OWN, FR, ("has the key", "has(this,k)"), ("other keys kept", "forall(lambda q: implies(q!=k, has(this,q)==old(has(this,q))))"), ("entries kept, new ones zero", "forall(lambda q: ent(this,q)==old(ent(this,q)))"), ("reference to the entry", "result==ent(this,k)")],
      loops=[["not mem(this.data_.local,i,k)"]], opts=L)
    C("erase", params=["k"], requires=["ok(this)"], modifies=H, ensures=[OWN, FR, ("key gone", "not has(this,k)"), ("other keys kept", "forall(lambda q: implies(q!=k, has(this,q)==old(has(this,q))))"), ("other entries kept", "forall(lambda q: implies(q!=k, ent(this,q)==old(ent(this,q))))")], loops=[["not mem(this.data_.local,i,k)"], ["forall(lambda q: implies(0<=q and q<j-1, this.data_.local[q]==ite(q<i, old(this.data_.local)[q], old(this.data_.local)[q+1])), pat=this.data_.local[q])","forall(lambda q: implies(j<=q and q<this.local_size_, this.data_.local[q]==old(this.data_.local)[q]), pat=this.data_.local[q])", "not mem(old(this.data_.local),i,k)"]], opts=L)
    for op, up in (("*=", "old(ent(this,q))*scalar"), ("/=", "old(ent(this,q))/scalar")):
        C("operator" + op, params=["scalar"], requires=["ok(this)", "scalar!=real(0)"], modifies=H, returns_lv="this", ensures=[OWN, FR, ("same keys", "forall(lambda q: has(this,q)==old(has(this,q)))"), ("entry by entry", "forall(lambda q: ent(this,q)==%s)" % up)],
          loops=[["ok(this)", "forall(lambda b: implies(b!=this.data_.rbmap.blk, HEAP_Map[b]==old(HEAP_Map)[b]), pat=HEAP_Map[b])", "rmap(this).dom==old(rmap(this).dom)", "forall(lambda q: rmap(this).val[q]==ite(rmap(this).dom[q] and it.pos[q]<it.idx, old(rmap(this).val[q])%sscalar, old(rmap(this).val[q])), pat=rmap(this).val[q])" % op[0]],
                 ["okl(this)", "forall(lambda q: implies(0<=q and q<this.local_size_, this.data_.local[q].first==old(this.data_.local)[q].first and this.data_.local[q].second==ite(q<i, old(this.data_.local)[q].second%sscalar, old(this.data_.local)[q].second)), pat=[this.data_.local[q],old(this.data_.local)[q]])" % op[0]]], opts=L)
    C("clear", requires=["ok(this)"], modifies=H, ensures=[OWN, FR, ("empty", "forall(lambda q: not has(this,q))"), "not this.is_remote_", "this.local_size_==0"])
    C("FastSparseVector", modifies=H, ensures=[FRESH, FR, ("empty", "forall(lambda q: not has(this,q))")], sig=lambda f: len(f["pt"]) == 0)
    C("FastSparseVector", params=["other"], modifies=H, requires=["ok(other)"], ensures=[FRESH, FR, SAMEOTHER], sig=lambda f: len(f["pt"]) == 1)
    C("operator=", params=["other"], modifies=H, requires=["ok(this)", "ok(other)", SEP], returns_lv="this", ensures=[OWN, FR, SAMEOTHER])
    C("size", requires=["ok(this)"], ensures=["result==ite(this.is_remote_, rmap(this).size, this.local_size_)"])
    return cs


def lemmas(u):
    for k, t in u.types.items():
        if t.get("k") == "array" and "PairIntT" in str(t.get("to")):
            LS = u.sort(k)
    a, n, k, i = ("a", LS), ("n", I_), ("k", I_), ("i", I_)
    return [Lemma("lk_mem", [a, n, k], ["0<=n", "not mem(a,n,k)"], ["lk(a,n,k)==real(0)"], induct="n", pats=["lk(a,n,k)"]),
            Lemma("lk_at", [a, n, k, i], ["0<=i and i<n", "a[i].first==k", "forall(lambda i, j: implies(0<=i and i<j and j<n, a[i].first!=a[j].first), pat=(a[i],a[j]))"], ["lk(a,n,k)==a[i].second", "mem(a,n,k)"], induct="n", pats=["(lk(a,n,k),a[i])"]),
            Lemma("mem_ix", [a, n, k, i], ["0<=i and i<n", "a[i].first==k"], ["mem(a,n,k)"], induct="n", pats=["(mem(a,n,k),a[i])"]),
            Lemma("mem_wit", [a, n, k], ["mem(a,n,k)"], ["exists(lambda i: 0<=i and i<n and a[i].first==k)"], induct="n", pats=["mem(a,n,k)"]),
            Lemma("lk_frame", [a, ("b", LS), n, k], ["0<=n", "forall(lambda i: implies(0<=i and i<n, a[i]==b[i]), pat=a[i])"], ["lk(a,n,k)==lk(b,n,k)", "mem(a,n,k)==mem(b,n,k)"], induct="n", pats=["(lk(a,n,k),lk(b,n,k))", "(mem(a,n,k),mem(b,n,k))"])]


def build2(u):
    S = "FastSparseVector::"
    cs = []
    C = lambda n, **k: cs.append(Contract(S + n, **k))
    key = "j"
    it = lambda upd: ["forall(lambda k: implies(not other.dom[k] or it.pos[k]>=it.idx, get(this,k)==get(old(this),k)), pat=this.val[k])",
                      "forall(lambda k: implies(other.dom[k] and it.pos[k]<it.idx, get(this,k)==%s), pat=this.val[k])" % upd, "0<=it.idx"]
    for op, upd in (("+=", "get(old(this),k)+get(other,k)"), ("-=", "get(old(this),k)-get(other,k)")):
        C("operator" + op, params=["other"], modifies=["this"], returns_lv="this", ensures=[("entry by entry", "forall(lambda k: get(this,k)==%s)" % upd)], loops=[it(upd)])
    C("plus_eq_v_times_s", params="other scalar".split(), modifies=["this"], ensures=[("entry by entry", "forall(lambda k: get(this,k)==get(old(this),k)+get(other,k)*scalar)")], loops=[it("get(old(this),k)+get(other,k)*scalar")])
    C("erase_zeros", params=["EPSILON"], ensures=[("entries above the threshold only", "forall(lambda k: result.dom[k]==(this.dom[k] and (this.val[k]>EPSILON or 0-this.val[k]>EPSILON)))"), ("their values", "forall(lambda k: implies(result.dom[k], result.val[k]==this.val[k]))")],
      loops=[["forall(lambda k: o.dom[k]==(this.dom[k] and it.pos[k]<it.idx and (this.val[k]>EPSILON or 0-this.val[k]>EPSILON)), pat=o.dom[k])", "forall(lambda k: implies(o.dom[k], o.val[k]==this.val[k]), pat=o.val[k])", "0<=it.idx"]])
    C("operator==", params=["other"], ensures=[("same entries", "result==(this.size==other.size and forall(lambda k: implies(this.dom[k], other.dom[k] and other.val[k]==this.val[k])))")], loops=[["forall(lambda k: implies(this.dom[k] and it.pos[k]<it.idx, other.dom[k] and other.val[k]==this.val[k]), pat=this.val[k])", "0<=it.idx"]])
    cs.append(Contract("operator+", params="x y".split(), ensures=[("entry by entry", "forall(lambda k: get(result,k)==get(x,k)+get(y,k))")]))
    cs.append(Contract("operator-", params="x y".split(), ensures=[("entry by entry", "forall(lambda k: get(result,k)==get(x,k)-get(y,k))")]))
    return cs


F2 = ["FastSparseVector::" + f for f in "operator+= operator-= plus_eq_v_times_s erase_zeros operator==".split()] + ["operator+", "operator-"]
PROPERTY = Property("U01", [UnitSpec("/verif/harness/u01.cc", build, ["FastSparseVector::" + f for f in "value size swap_local_rbmap get_or_create_bin erase operator*= operator/= clear FastSparseVector operator=".split()], lemmas=lemmas, stl=Rep, prep=prep, opts={"delete": True}),
    UnitSpec("/verif/harness/u01.cc", build2, F2, opts={"maplike": {"FastSparseVector"}})],
    driver=Driver("u01.cc", ["utils/fdict.cc", "utils/verbose.cc", "utils/stringlib.cc"], libs=["-lboost_serialization"], secs=15),
    bounded=["iterators and find, construction from pairs, swap, set_value, add_value, operator[], dot, norms, num_nonzero, tanimoto_coef, init_vector, serialization: random operation sequences against std::map"], bounded_secs=10)
