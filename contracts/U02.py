from api import *
# element i of a vector: in the object for up to two elements, in its block otherwise
macro("at", "v i", "ite(v.size_<=2, v.data_.vals[i], HEAP_Int[v.data_.ptr.blk][i])")
# a vector in a consistent state: large ones own a block with room for their elements
macro("ok", "v", "0<=v.size_ and v.size_<40960 and len(v.data_.vals)==2 and implies(v.size_>2, v.data_.ptr.off==0 and 0<v.data_.ptr.blk and v.data_.ptr.blk<ALLOC and len(HEAP_Int[v.data_.ptr.blk])==v.capacity_ and v.size_<=v.capacity_ and v.capacity_<=40960)")
macro("large", "v", "len(v.data_.vals)==2 and v.data_.ptr.off==0 and 0<v.data_.ptr.blk and v.data_.ptr.blk<ALLOC and len(HEAP_Int[v.data_.ptr.blk])==v.capacity_ and v.capacity_<=40960")
macro("sep", "v o", "implies(v.size_>2 and o.size_>2, v.data_.ptr.blk!=o.data_.ptr.blk)")
# blocks that are not this vector's stay as they are
FRAME = ("other blocks kept", "forall(lambda b: implies(0<=b and b<old(ALLOC) and not (old(this.size_)>2 and b==old(this.data_.ptr.blk)), HEAP_Int[b]==old(HEAP_Int)[b]), pat=HEAP_Int[b])")
FRAME0 = ("other blocks kept", "forall(lambda b: implies(0<=b and b<old(ALLOC), HEAP_Int[b]==old(HEAP_Int)[b]), pat=HEAP_Int[b])")
FRAMEL = ("other blocks kept", "forall(lambda b: implies(0<=b and b<old(ALLOC) and b!=old(this.data_.ptr.blk), HEAP_Int[b]==old(HEAP_Int)[b]), pat=HEAP_Int[b])")
OWN = ("consistent state", "ok(this) and implies(this.size_>2, this.data_.ptr.blk>=old(ALLOC) or (old(this.size_)>2 and this.data_.ptr.blk==old(this.data_.ptr.blk)))")
FRESH = ("consistent state", "ok(this) and implies(this.size_>2, this.data_.ptr.blk>=old(ALLOC))")
HEAP = "heap:int"


def build(u):
    S = "SmallVector::"
    H = ["this", HEAP]
    cs = []
    C = lambda n, **k: cs.append(Contract(S + n, **k))
    oat = "ite(old(this.size_)<=2, old(this.data_.vals)[i], old(HEAP_Int)[old(this.data_.ptr.blk)][i])"
    same = lambda n: "forall(lambda i: implies(0<=i and i<%s, at(this,i)==%s))" % (n, oat)
    eqo = "forall(lambda i: implies(0<=i and i<o.size_, at(this,i)==ite(o.size_<=2, o.data_.vals[i], old(HEAP_Int)[o.data_.ptr.blk][i])))"
    # helpers that change the representation
    C("copy_vals_to_ptr", requires=["len(this.data_.vals)==2"], modifies=H, ensures=["large(this)", "this.data_.ptr.blk>=old(ALLOC)", "this.size_==old(this.size_)", "this.capacity_==4", ("elements moved to the block", "forall(lambda i: implies(0<=i and i<2, HEAP_Int[this.data_.ptr.blk][i]==old(this.data_.vals)[i]))"), FRAME0],
      loops=[["tmp.off==0", "tmp.blk==old(ALLOC)", "len(HEAP_Int[tmp.blk])==4", "ALLOC==tmp.blk+1", "this.data_==old(this.data_)", "this.size_==old(this.size_)", "this.capacity_==4", "forall(lambda q: implies(0<=q and q<i, HEAP_Int[tmp.blk][q]==this.data_.vals[q]))", "forall(lambda b: implies(0<=b and b<old(ALLOC), HEAP_Int[b]==old(HEAP_Int)[b]), pat=HEAP_Int[b])"]])
    C("ptr_to_small", requires=["large(this)", "0<=this.size_ and this.size_<=2", "len(HEAP_Int[this.data_.ptr.blk])>=this.size_", "len(this.data_.vals)==2"], modifies=H, ensures=["ok(this)", "this.size_==old(this.size_)", ("elements moved into the object", "forall(lambda i: implies(0<=i and i<this.size_, this.data_.vals[i]==old(HEAP_Int)[old(this.data_.ptr.blk)][i]))"), FRAMEL],
      loops=[["tmp==old(this.data_.ptr)", "HEAP_Int==old(HEAP_Int)", "ALLOC==old(ALLOC)", "this.size_==old(this.size_)", "len(this.data_.vals)==2", "forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==HEAP_Int[tmp.blk][q]))"]])
    C("ensure_capacity", params=["min_size"], requires=["large(this)", "this.capacity_<=20000", "2<min_size and min_size<40960", "this.size_>2 or this.capacity_==4", "this.size_<=this.capacity_"], modifies=H,
      ensures=["large(this)", ("room", "this.capacity_>=min_size"), "this.size_==old(this.size_)", "this.data_.ptr.blk>=old(ALLOC) or this.data_.ptr.blk==old(this.data_.ptr.blk)", ("elements kept", "forall(lambda i: implies(0<=i and i<old(this.capacity_), HEAP_Int[this.data_.ptr.blk][i]==old(HEAP_Int)[old(this.data_.ptr.blk)][i]))"), "this.capacity_>=old(this.capacity_)", FRAMEL])
    # the public operations
    C("push_back", params=["v"], requires=["ok(this)", "this.size_<20000", "this.capacity_<=20000 or this.size_<=2"], modifies=H, ensures=[OWN, FRAME, ("one element longer", "this.size_==old(this.size_)+1"), ("earlier elements kept", same("old(this.size_)")), ("last element", "at(this,this.size_-1)==v")])
    C("pop_back", requires=["ok(this)", "this.size_>0"], modifies=H, ensures=[OWN, FRAME, ("one element shorter", "this.size_==old(this.size_)-1"), ("other elements kept", same("this.size_"))])
    C("resize", params="s v".split(), requires=["ok(this)", "0<=s and s<20000", "this.capacity_<=20000 or this.size_<=2"], modifies=H, ensures=[OWN, FRAME, ("size", "this.size_==s"), ("elements kept", "forall(lambda i: implies(0<=i and i<s and i<old(this.size_), at(this,i)==%s))" % oat), ("new elements", "forall(lambda i: implies(old(this.size_)<=i and i<s, at(this,i)==v))")],
      loops=[["forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==old(HEAP_Int)[old(this.data_.ptr.blk)][q]))", "len(this.data_.vals)==2", "tmp==old(this.data_.ptr)", "HEAP_Int==old(HEAP_Int)", "ALLOC==old(ALLOC)"],
             ["forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==ite(q<old(this.size_), old(this.data_.vals)[q], v)))", "len(this.data_.vals)==2", "this.size_==old(this.size_)", "HEAP_Int==old(HEAP_Int)", "ALLOC==old(ALLOC)", "i>=old(this.size_)"],
             ["large(this)", "this.capacity_>=s", "this.size_==old(this.size_)", "i>=old(this.size_)", "this.data_.ptr.blk>=old(ALLOC) or (old(this.size_)>2 and this.data_.ptr.blk==old(this.data_.ptr.blk))", "ALLOC>=old(ALLOC)",
              "forall(lambda q: implies(0<=q and q<i, HEAP_Int[this.data_.ptr.blk][q]==ite(q<old(this.size_), ite(old(this.size_)<=2, old(this.data_.vals)[q], old(HEAP_Int)[old(this.data_.ptr.blk)][q]), v)))", FRAME[1]]])
    C("clear", requires=["ok(this)"], modifies=H, ensures=[("empty", "this.size_==0"), "ok(this)", FRAME])
    C("compact", params=["size"], requires=["ok(this)", "0<=size and size<=this.size_"], modifies=H, ensures=[OWN, FRAME, ("size", "this.size_==size"), ("elements kept", same("size"))], sig=lambda f: len(f["pt"]) == 1)
    C("size", ensures=["result==this.size_"])
    C("empty", ensures=["result==(this.size_==0)"])
    C("operator[]", params=["i"], requires=["ok(this)", "0<=i and i<this.size_"], ensures=[("element", "result==at(this,i)")])
    C("back", requires=["ok(this)", "this.size_>0"], ensures=[("last element", "result==at(this,this.size_-1)")])
    C("front", requires=["ok(this)", "this.size_>0"], ensures=[("first element", "result==at(this,0)")])
    C("operator==", params=["o"], requires=["ok(this)", "ok(o)"], ensures=[("same elements", "result==(this.size_==o.size_ and forall(lambda i: implies(0<=i and i<this.size_, at(this,i)==at(o,i))))")],
      loops=[["forall(lambda q: implies(0<=q and q<i, at(this,q)==at(o,q)))"], ["forall(lambda q: implies(0<=q and q<i, at(this,q)==at(o,q)))"]])
    C("operator=", params=["o"], requires=["ok(this)", "ok(o)", "sep(this,o)"], modifies=H, ensures=[OWN, FRAME, ("size", "this.size_==o.size_"), ("elements copied", eqo)],
      loops=[["HEAP_Int==old(HEAP_Int)", "len(this.data_.vals)==2", "forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==o.data_.vals[q]))", "this.size_==o.size_"],
             ["len(this.data_.vals)==2", "forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==o.data_.vals[q]))", "this.size_==o.size_", FRAME[1]],
             ["large(this)", "this.size_==o.size_", "this.capacity_>=o.size_", "this.data_.ptr.blk>=old(ALLOC) or this.data_.ptr.blk==old(this.data_.ptr.blk)", "forall(lambda q: implies(0<=q and q<i, HEAP_Int[this.data_.ptr.blk][q]==old(HEAP_Int)[o.data_.ptr.blk][q]))", FRAME[1]]])
    # constructors
    C("SmallVector", ensures=[("empty", "this.size_==0")], modifies=H, sig=lambda f: len(f["pt"]) == 0)
    C("SmallVector", params=["o"], requires=["ok(o)"], modifies=H, ensures=[FRESH, FRAME0, ("size", "this.size_==o.size_"), ("elements copied", eqo)], sig=lambda f: len(f["pt"]) == 1 and "SmallVector" in str(f["pt"]))
    C("SmallVector", params="s v".split(), requires=["0<=s and s<20000"], modifies=H, ensures=[FRESH, FRAME0, ("size", "this.size_==s"), ("elements", "forall(lambda i: implies(0<=i and i<s, at(this,i)==v))")],
      loops=[["len(this.data_.vals)==2", "this.size_==s", FRAME0[1], "forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==v))"],
             ["large(this)", "this.capacity_==s", "this.size_==s", FRAME0[1], "this.data_.ptr.blk>=old(ALLOC)", "forall(lambda q: implies(0<=q and q<i, HEAP_Int[this.data_.ptr.blk][q]==v))"]], sig=lambda f: len(f["pt"]) == 2 and "long" in str(f["pt"][0]))
    C("SmallVector", params=["s"], requires=["0<=s and s<20000"], modifies=H, ensures=[FRESH, FRAME0, ("size", "this.size_==s"), ("elements", "forall(lambda i: implies(0<=i and i<s, at(this,i)==0))")],
      loops=[["len(this.data_.vals)==2", "this.size_==s", FRAME0[1], "forall(lambda q: implies(0<=q and q<i, this.data_.vals[q]==0))"],
             ["large(this)", "this.capacity_==s", "this.size_==s", FRAME0[1], "this.data_.ptr.blk>=old(ALLOC)", "forall(lambda q: implies(0<=q and q<i, HEAP_Int[this.data_.ptr.blk][q]==0))"]], sig=lambda f: len(f["pt"]) == 1 and "SmallVector" not in str(f["pt"]))
    return cs


FN = "copy_vals_to_ptr ptr_to_small ensure_capacity push_back pop_back resize clear compact size empty operator[] back front operator== operator= SmallVector".split()
PROPERTY = Property("U02", [UnitSpec("/verif/harness/u02.cc", build, ["SmallVector::" + f for f in FN], opts={"delete": True})],
    driver=Driver("u02.cc", [], libs=["-lboost_serialization"], secs=15),
    bounded=["begin, end, erase of ranges, construction from a range, swap, hash_value, !=, serialization, writes through operator[], self-referencing push_back, SV_MAX of 1 and 3: random operation sequences against std::vector"], bounded_secs=8)
