"""Library contracts: the C++ standard library operations the verified code calls."""
import re
import z3
from ir import *
from spec import acc, sel, is_vec, is_map, is_set, vlen, vat
import sym, ir
from sym import LV, PyPtr, MapIt, And, Or, Not, If, TRUE, FALSE, I, Lam, FnRef

MATH = {}


def mathfn(name, n=1):
    if name not in MATH:
        MATH[name] = z3.Function("m_" + name, *([z3.RealSort()] * n), z3.RealSort())
    return MATH[name]


VEC_NAMES = ("std::vector::", "std::basic_string::", "std::deque::", "std::array::", "std::initializer_list::", "std::list::")
MAP_NAMES = ("std::map::", "std::unordered_map::", "std::set::", "std::unordered_set::")


def unwrapped(ex, st, i):
    """a signed index converted to size_t that is within bounds was not negative: drop the conversion"""
    if z3.is_app_of(i, z3.Z3_OP_ITE):
        c, a, b = i.children()
        if z3.is_app_of(c, z3.Z3_OP_LT) and c.arg(0).eq(b) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == 0 and z3.simplify(a - b).eq(I(2 ** 64)):
            ex.facts.append(z3.Implies(st.reach, b >= 0))
            return b
    return i


class STL:
    def __init__(self):
        self.extra_calls = {}
        self.extra_ctors = {}

    # ---- constructors --------------------------------------------------------
    def ctor(self, ex, fn, tkey, args, e, st):
        k = ex.u.kind(tkey)
        q = fn["q"]
        if q in self.extra_ctors:
            return self.extra_ctors[q](ex, fn, tkey, args, e, st)
        if k == "vec":
            return self.vec_ctor(ex, fn, tkey, args, e, st)
        if k in ("map", "set"):
            a = [x for x in args]
            if not fn["pt"] or self.is_alloc(ex, fn["pt"][0]) or ex.u.ty(fn["pt"][0])["k"] == "int" or "hash" in fn["pt"][0] or "std::less" in fn["pt"][0]:
                return ex.default_value(st, tkey)
            return None
        if k == "sp":
            if not args:
                return ex.default_value(st, tkey)
            v = ex.eval(args[0], st)
            d = dtinfo(ex.u.sort(tkey))
            if d is None:
                return ex.fresh("sp", ex.u.sort(tkey))
            if isinstance(v, PyPtr):
                if v.base is None:
                    return ex.default_value(st, tkey)
                return d.ctor(Not(v.isnull), ex.read(st, v.base))
            if z3.is_expr(v) and v.sort() == ptr_sort():
                pe = ex.u.ty(ex.u.strip_ref(args[0]["t"]))
                o = ex.deref(v, st, pe["to"], e["l"]) if pe["k"] == "ptr" else None
                if o is not None:
                    val = ex.read(st, o)
                    if val.sort() == d.acc[1].range():
                        return d.ctor(acc(v, "blk") != 0, val)
            if z3.is_expr(v) and v.sort() == ex.u.sort(tkey):
                return v
            raise VCError("smart pointer construction at line %s" % e["l"])
        if k in ("iter", "mapiter"):
            if not args:
                return None
            return ex.eval(args[0], st)
        if k == "rec" and ex.u.ty(tkey)["name"] == "std::pair":
            d = dtinfo(ex.u.sort(tkey))
            if not args:
                return ex.default_value(st, tkey, zero=True)
            if len(args) == 2:
                fts = [f["t"] for f in ex.u.records[tkey]["fields"]]
                vs = []
                for a, ft in zip(args, fts):
                    v = ex.eval(a, st)
                    v = self.conv_to(ex, v, a["t"], ft)
                    vs.append(v)
                if any(isinstance(v, MapIt) for v in vs):
                    return PyPair(vs[0], vs[1])
                return d.ctor(*[ex.storable(v) for v in vs])
            if len(args) == 1:
                v = ex.eval(args[0], st)
                if z3.is_expr(v) and v.sort() == d.sort:
                    return v
                ad = dtinfo(v.sort())
                src = ex.u.records[ex.u.strip_ref(args[0]["t"])]["fields"]
                dst = ex.u.records[tkey]["fields"]
                return d.ctor(*[self.conv_to(ex, acc(v, f), sf["t"], df["t"]) for f, sf, df in zip(("first", "second"), src, dst)])
            return None
        if k == "rec":
            n = ex.u.ty(tkey)["name"]
            if n.startswith("std::") and ex.u.sort(tkey).kind() == z3.Z3_UNINTERPRETED_SORT:
                for a in args:
                    ex.eval_void(a, st)
                return ex.fresh("opq", ex.u.sort(tkey))
        return None

    def conv_to(self, ex, v, frm, to):
        if z3.is_expr(v):
            frm, to = ex.u.strip_ref(frm), ex.u.strip_ref(to)
            tf, tt = ex.u.ty(frm), ex.u.ty(to)
            if tt["k"] in ("int", "float", "bool") and tf["k"] in ("int", "float", "bool"):
                return ex.conv(v, frm, to)
        return v

    def is_alloc(self, ex, t):
        return "allocator" in ex.u.strip_ref(t) and "std::allocator" in ex.u.ty(ex.u.strip_ref(t)).get("name", "")

    def vec_ctor(self, ex, fn, tkey, args, e, st):
        d = dtinfo(ex.u.sort(tkey))
        pts = fn["pt"]
        nal = [p for p in pts if not self.is_alloc(ex, p)]
        if not nal:
            return ex.default_value(st, tkey)
        if d is None:
            v = ex.eval(args[0], st)
            return v if z3.is_expr(v) and v.sort() == ex.u.sort(tkey) else ex.fresh("opq", ex.u.sort(tkey))
        isstr = ex.u.ty(tkey)["name"].endswith("basic_string")
        t0 = ex.u.ty(ex.u.strip_ref(nal[0]))
        if isstr:
            a0 = ex.eval(args[0], st)
            if t0["k"] == "ptr":
                if isinstance(a0, PyPtr) and a0.base is not None and len(nal) == 1:
                    s = ex.read(st, a0.base)
                    if z3.is_int_value(a0.idx) and a0.idx.as_long() == 0:
                        return s
                if len(nal) == 2 and ex.u.ty(nal[1])["k"] == "int":
                    n = ex.eval(args[1], st)
                    return self.vec_from_ptr(ex, d, a0, n, st)
                raise VCError("string from pointer")
            if z3.is_expr(a0) and a0.sort() == d.sort and len(nal) == 1:
                return a0
            if t0["k"] == "int" and len(nal) == 2:
                c = ex.eval(args[1], st)
                return d.ctor(a0, z3.K(z3.IntSort(), c))
            if isinstance(a0, PyPtr) and len(nal) == 2:
                b = ex.as_idxptr(ex.eval(args[1], st))
                return self.vec_range(ex, d, ex.as_idxptr(a0), b, st)
            if z3.is_expr(a0) and a0.sort() == d.sort and len(nal) == 3:
                return self.substr(ex, a0, ex.eval(args[1], st), ex.eval(args[2], st), st, d)
            raise VCError("string constructor at line %s" % e["l"])
        if t0["k"] == "int":
            n = ex.eval(args[0], st)
            ek = ex.u.elem(tkey)
            if len(nal) >= 2:
                v = ex.eval(args[1], st)
                v = self.conv_to(ex, v, nal[1], ek)
            else:
                v = self.value_init(ex, st, ek)
            ex.oblige(st, "vector size non-negative and within limits", And(n >= 0, n <= ex.MAXLEN), "bounds", e["l"])
            return d.ctor(n, z3.K(z3.IntSort(), ex.storable(v)))
        a0 = ex.eval(args[0], st)
        if len(nal) >= 2:
            a1 = ex.eval(args[1], st)
            if isinstance(a0, PyPtr):
                return self.vec_range(ex, d, ex.as_idxptr(a0), ex.as_idxptr(a1), st)
            if isinstance(a0, MapIt) and a0.keys is not None and z3.is_true(a1.end if z3.is_expr(a1.end) else FALSE):
                if a0.keys.sort() == d.sort:
                    return a0.keys
        if z3.is_expr(a0) and a0.sort() == d.sort:
            return a0
        raise VCError("vector constructor at line %s" % e["l"])

    def vec_from_ptr(self, ex, d, p, n, st):
        p = ex.as_idxptr(p)
        if isinstance(p, PyPtr):
            src = ex.read(st, p.base)
            off = p.idx
        else:
            raise VCError("vec_from_ptr")
        ex.oblige(st, "range readable", And(off >= 0, n >= 0, off + n <= vlen(src)), "bounds")
        a = ex.fresh("slice", d.acc[1].range())
        i = z3.FreshConst(z3.IntSort(), "i")
        ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == sel(acc(src, "arr"), off + i)), patterns=[z3.Select(a, i)]))
        return d.ctor(n, a)

    def vec_range(self, ex, d, a, b, st):
        if not (isinstance(a, PyPtr) and isinstance(b, PyPtr)) or a.base is None or not a.base.same(b.base):
            raise VCError("iterator range over different containers")
        src = ex.read(st, a.base)
        n = sym.simp_num(b.idx - a.idx)
        ex.oblige(st, "iterator range valid", And(a.idx >= 0, a.idx <= b.idx, b.idx <= vlen(src)), "bounds")
        arr = self.slice_arr(ex, src, a.idx, n)
        if arr.sort() != d.acc[1].range():
            raise VCError("range element conversion")
        return d.ctor(n, arr)

    def slice_arr(self, ex, src, off, n):
        if z3.is_int_value(off) and off.as_long() == 0:
            return acc(src, "arr")
        a = ex.fresh("slice", acc(src, "arr").sort())
        i = z3.FreshConst(z3.IntSort(), "i")
        sa = acc(src, "arr")
        ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == z3.Select(sa, off + i)), patterns=[z3.Select(a, i)]))
        ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= off, i < off + n), z3.Select(sa, i) == z3.Select(a, i - off)), patterns=[z3.Select(sa, i)]))
        return a

    def substr(self, ex, s, pos, n, st, d):
        ex.oblige(st, "substr position in range", And(pos >= 0, pos <= vlen(s)), "bounds")
        m = If(pos + n > vlen(s), vlen(s) - pos, n)
        return d.ctor(m, self.slice_arr(ex, s, pos, m))

    def value_init(self, ex, st, ek):
        """value-initialised element: zero for scalars, default construction for classes"""
        k = ex.u.kind(ek)
        if k in ("int", "float", "bool", "ptr"):
            return ex.default_value(st, ek, zero=True)
        if k == "rec":
            ty = ex.u.ty(ek)
            return ex.default_value(st, ek, zero=ty["name"] == "std::pair")
        return ex.default_value(st, ek, zero=True)

    # ---- calls -----------------------------------------------------------------
    def call(self, ex, fn, e, st):
        q = fn["q"]
        q = q.replace("std::__cxx11::", "std::")
        if q in self.extra_calls:
            return self.extra_calls[q](ex, fn, e, st)
        if "id" in fn and str(fn["id"]) in ex.u.functions and not q.startswith("std::") and q.split("::")[0] not in ex.u.opts.get("veclike", ()) and not (q.split("::")[0] in ex.u.opts.get("maplike", ()) and q.split("::")[-1] in self.MAPLIKE):
            return NotImplemented
        m = q.split("::")
        if len(m) == 2 and m[0] in ex.u.opts.get("veclike", ()):
            # a container of /repo used through its sequence abstraction (its own property verifies the implementation)
            ex.trusted.add("%s behaves as a sequence" % m[0])
            return self.vec_call(ex, m[1], fn, e, st)
        if m[0] in ex.u.opts.get("maplike", ()):
            # a container of /repo used through its map abstraction
            ex.trusted.add("%s behaves as a map: absent entries are zero, iteration visits every entry once" % m[0])
            if len(m) == 2:
                return self.map_call(ex, m[1], fn, e, st)
            if m[1] in ("iterator", "const_iterator"):
                return self.mapiter_call(ex, m[-1], fn, e, st)
        if q.startswith(VEC_NAMES):
            return self.vec_call(ex, m[-1], fn, e, st)
        if q.startswith(MAP_NAMES) or (m[0] in ("std", "boost") and len(m) > 2 and m[1] in ("map", "unordered_map", "set", "unordered_set", "tr1")):
            return self.map_call(ex, m[-1], fn, e, st)
        if "__normal_iterator" in q or "_Bit_iterator" in q or "_Bit_const_iterator" in q or "_Deque_iterator" in q or "_Bit_iterator_base" in q:
            return self.iter_call(ex, m[-1], fn, e, st)
        if "_Rb_tree" in q or "_Node_iterator" in q or "_Node_const_iterator" in q or "__detail::" in q:
            return self.mapiter_call(ex, m[-1], fn, e, st)
        if q.startswith("std::back_insert_iterator::") and "obj" in e:
            if m[-1] in ("operator*", "operator++"):
                return ex.x_any(e["obj"], st)
            if m[-1] == "operator=":
                o = ex.x_any(e["obj"], st)
                if isinstance(o, sym.LV) and not o.path:
                    o = st.vars.get(o.root)
                if not (isinstance(o, tuple) and o[0] == "back_inserter"):
                    raise VCError("insertion through an unknown back_insert_iterator")
                lv, x = o[1], ex.eval(e["args"][0], st)
                v = ex.read(st, lv)
                ex.write(st, lv, dtinfo(v.sort()).ctor(sym.simp_num(vlen(v) + 1), z3.Store(acc(v, "arr"), vlen(v), ex.storable(x))))
                self.len_ok(ex, st, lv)
                return o
        if q.startswith("std::_Bit_reference::"):
            if m[-1] == "operator bool":
                return ex.eval(e["obj"], st)
            if m[-1] == "operator=":
                v = ex.eval(e["args"][0], st)
                lv = ex.lval(e["obj"], st)
                ex.write(st, lv, v)
                return lv
        if "shared_ptr" in q or "unique_ptr" in q or q.startswith("boost::scoped_ptr"):
            return self.sp_call(ex, m[-1], fn, e, st)
        if q.startswith("std::pair::"):
            if m[-1] == "operator=":
                v = ex.eval(e["args"][0], st)
                lv = ex.lval(e["obj"], st)
                d = dtinfo(ex.u.sort(e["obj"]["t"]))
                if v.sort() != d.sort:
                    src = ex.u.records[ex.u.strip_ref(e["args"][0]["t"])]["fields"]
                    dst = ex.u.records[ex.u.strip_ref(e["obj"]["t"])]["fields"]
                    v = d.ctor(*[self.conv_to(ex, acc(v, f), sf["t"], df["t"]) for f, sf, df in zip(("first", "second"), src, dst)])
                ex.write(st, lv, v)
                return lv
        if m[0] in ("std", "__gnu_cxx", "boost") or len(m) == 1:
            h = getattr(self, "f_" + re.sub(r"\W+", "_", m[-1]), None)
            if m[-1].startswith("operator"):
                return self.op_call(ex, m[-1][8:], fn, e, st)
            if h is not None and (m[0] == "std" or m[-1] in CFUNCS or m[0] == "__gnu_cxx"):
                return h(ex, fn, e, st)
        if q.startswith("std::") and ("ostream" in q or "istream" in q or "ios" in q):
            for a in e["args"]:
                try:
                    ex.eval_void(a, st)
                except VCError:
                    pass
            if "obj" in e:
                return ex.lval(e["obj"], st)
            return TRUE
        return NotImplemented

    def objlv(self, ex, e, st):
        if e.get("objptr"):
            p = ex.eval(e["obj"], st)
            return ex.deref(p, st, ex.ty(e["obj"])["to"], e["l"])
        return ex.lval(e["obj"], st)

    # ---- vectors and strings -------------------------------------------------------
    def vec_call(self, ex, m, fn, e, st):
        lv = self.objlv(ex, e, st)
        v = ex.read(st, lv)
        if z3.is_expr(v) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            if m == "operator=":
                a = ex.eval(e["args"][0], st)
                ex.write(st, lv, a if z3.is_expr(a) and a.sort() == v.sort() else ex.fresh("opq", v.sort()))
                return lv
            if m in ("size", "length", "empty"):
                n = z3.Function("len$" + str(v.sort()), v.sort(), z3.IntSort())(v)
                ex.facts.append(n >= 0)
                return n == 0 if m == "empty" else n
            if m in ("operator+=", "append", "clear", "push_back", "swap"):
                for a in e["args"]:
                    ex.eval_void(a, st)
                ex.write(st, lv, ex.fresh("opq", v.sort()))
                return lv
            if m in ("c_str", "data"):
                return ex.fresh("cstr", ptr_sort())
        if v is None or not z3.is_expr(v) or not is_vec(v):
            raise VCError("vector operation on %r" % (v,))
        ex.loadfact(st, v, ex.u.strip_ref(e["obj"]["t"]) if not e.get("objptr") else ex.ty(e["obj"])["to"])
        d = dtinfo(v.sort())
        A = e["args"]
        otk = ex.u.strip_ref(e["obj"]["t"]) if not e.get("objptr") else ex.ty(e["obj"])["to"]
        isstr = "basic_string" in ex.u.ty(otk).get("name", "")
        ek = None if isstr else ex.u.elem(otk)
        n = vlen(v)
        if m in ("size", "length"):
            return n
        if m == "empty":
            return ex.compare("==", n, I(0))
        if m in ("operator[]", "at"):
            i = ex.eval(A[0], st)
            if m == "at":
                ok = And(i >= 0, i < n)
                st.reach = And(st.reach, ok)
            elif isstr and fn.get("const"):
                ex.oblige(st, "index in bounds", And(i >= 0, i <= n), "bounds", e["l"])
            else:
                ex.oblige(st, "index in bounds", And(i >= 0, i < n), "bounds", e["l"])
                i = unwrapped(ex, st, i)
            return lv.ext(("v", i))
        if m == "back":
            ex.oblige(st, "back() of non-empty", n > 0, "bounds", e["l"])
            return lv.ext(("v", sym.simp_num(n - 1)))
        if m == "front":
            ex.oblige(st, "front() of non-empty", n > 0, "bounds", e["l"])
            return lv.ext(("v", I(0)))
        if m in ("push_back", "emplace_back"):
            if m == "emplace_back":
                if len(A) == 1 and ex.u.sort(A[0]["t"]) == d.acc[1].range().range():
                    x = ex.eval(A[0], st)
                else:
                    x = self.emplace(ex, ek, fn, A, e, st)
            else:
                x = ex.eval(A[0], st)
            v = ex.read(st, lv)
            ex.write(st, lv, d.ctor(sym.simp_num(vlen(v) + 1), z3.Store(acc(v, "arr"), vlen(v), ex.storable(x))))
            self.len_ok(ex, st, lv)
            return lv.ext(("v", vlen(v))) if m == "emplace_back" else TRUE
        if m == "pop_back":
            ex.oblige(st, "pop_back() of non-empty", n > 0, "bounds", e["l"])
            ex.write(st, lv, d.ctor(sym.simp_num(n - 1), acc(v, "arr")))
            return TRUE
        if m == "clear":
            ex.write(st, lv, d.ctor(I(0), acc(v, "arr")))
            return TRUE
        if m in ("reserve", "shrink_to_fit"):
            for a in A:
                ex.eval(a, st)
            return TRUE
        if m == "resize":
            k = ex.eval(A[0], st)
            if len(A) > 1:
                x = ex.storable(ex.eval(A[1], st))
                x = self.conv_to(ex, x, fn["pt"][1], ek) if ek else x
            else:
                x = ex.storable(self.value_init(ex, st, ek)) if ek else I(0)
            v = ex.read(st, lv)
            n = vlen(v)
            ex.oblige(st, "resize() within limits", And(k >= 0, k <= ex.MAXLEN), "bounds", e["l"])
            oa = acc(v, "arr")
            if z3.is_int_value(n) and n.as_long() == 0:
                na = z3.K(z3.IntSort(), x)
            else:
                na = ex.fresh("resized", oa.sort())
                i = z3.FreshConst(z3.IntSort(), "i")
                ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= 0, i < n), z3.Select(oa, i), x), patterns=[z3.Select(na, i)]))
                ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(na, i) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
            ex.write(st, lv, d.ctor(k, na))
            return TRUE
        if m in ("begin", "cbegin"):
            return PyPtr(ex.resolve(st, lv), I(0))
        if m in ("end", "cend"):
            return PyPtr(ex.resolve(st, lv), n)
        if m in ("data", "c_str"):
            return PyPtr(ex.resolve(st, lv), I(0))
        if m == "swap":
            o = ex.lval(A[0], st)
            w = ex.read(st, o)
            ex.write(st, lv, w)
            ex.write(st, o, v)
            return TRUE
        if m == "operator=":
            x = ex.eval(A[0], st)
            if isinstance(x, PyPtr) and isstr:
                x = ex.read(st, x.base)
            ex.write(st, lv, x)
            return lv
        if m == "assign":
            if ex.ty(A[0])["k"] == "int" and len(A) == 2:
                k = ex.eval(A[0], st)
                x = ex.eval(A[1], st)
                ex.write(st, lv, d.ctor(k, z3.K(z3.IntSort(), ex.storable(x))))
                return TRUE
            a, b = ex.as_idxptr(ex.eval(A[0], st)), ex.as_idxptr(ex.eval(A[1], st))
            ex.write(st, lv, self.vec_range(ex, d, a, b, st))
            return TRUE
        if m == "insert":
            p = ex.as_idxptr(ex.eval(A[0], st))
            if not isinstance(p, PyPtr):
                raise VCError("insert")
            if len(A) == 3:
                a, b = ex.as_idxptr(ex.eval(A[1], st)), ex.as_idxptr(ex.eval(A[2], st))
                src = ex.read(st, a.base)
                if not a.base.same(b.base):
                    raise VCError("insert range")
                cnt = sym.simp_num(b.idx - a.idx)
                ex.oblige(st, "inserted range valid", And(a.idx >= 0, cnt >= 0, b.idx <= vlen(src)), "bounds", e["l"])
                elem = lambda j: z3.Select(acc(src, "arr"), a.idx + j)
                extra = [(acc(src, "arr"), a.idx, cnt)]
            else:
                x = ex.storable(ex.eval(A[1], st))
                cnt = I(1)
                elem = lambda j: x
            pos = p.idx
            ex.oblige(st, "insert position valid", And(pos >= 0, pos <= n), "bounds", e["l"])
            oa = acc(v, "arr")
            if len(A) == 2 and pos.eq(n):
                ex.write(st, lv, d.ctor(sym.simp_num(n + 1), z3.Store(oa, n, x)))
            else:
                na = ex.fresh("ins", oa.sort())
                i = z3.FreshConst(z3.IntSort(), "i")
                ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(i < pos, z3.Select(oa, i), z3.If(i < pos + cnt, elem(i - pos), z3.Select(oa, i - cnt))), patterns=[z3.Select(na, i)]))
                ex.facts.append(z3.ForAll([i], z3.Implies(i < pos, z3.Select(na, i) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
                ex.facts.append(z3.ForAll([i], z3.Implies(i >= pos, z3.Select(na, i + cnt) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
                ex.write(st, lv, d.ctor(sym.simp_num(n + cnt), na))
            self.len_ok(ex, st, lv)
            return PyPtr(ex.resolve(st, lv), pos)
        if m == "erase":
            p = ex.as_idxptr(ex.eval(A[0], st))
            if isinstance(p, PyPtr):
                b = ex.as_idxptr(ex.eval(A[1], st)) if len(A) > 1 else PyPtr(p.base, sym.simp_num(p.idx + 1))
                cnt = sym.simp_num(b.idx - p.idx)
                pos = p.idx
                ex.oblige(st, "erase range valid", And(pos >= 0, cnt >= 0, b.idx <= n), "bounds", e["l"])
                oa = acc(v, "arr")
                na = ex.fresh("ers", oa.sort())
                i = z3.FreshConst(z3.IntSort(), "i")
                ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(i < pos, z3.Select(oa, i), z3.Select(oa, i + cnt)), patterns=[z3.Select(na, i)]))
                ex.facts.append(z3.ForAll([i], z3.Implies(i < pos, z3.Select(na, i) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
                ex.facts.append(z3.ForAll([i], z3.Implies(i >= pos + cnt, z3.Select(na, i - cnt) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
                ex.write(st, lv, d.ctor(sym.simp_num(n - cnt), na))
                return PyPtr(ex.resolve(st, lv), pos)
            raise VCError("erase")
        if isstr:
            if m == "substr":
                pos = ex.eval(A[0], st) if A else I(0)
                cnt = ex.eval(A[1], st) if len(A) > 1 else I(2 ** 64 - 1)
                return self.substr(ex, v, pos, cnt, st, d)
            if m in ("operator+=", "append"):
                t = ex.u.ty(ex.u.strip_ref(fn["pt"][0]))
                x = ex.eval(A[0], st)
                if t["k"] == "int" and len(A) == 1:
                    ex.write(st, lv, d.ctor(n + 1, z3.Store(acc(v, "arr"), n, x)))
                    return lv
                if isinstance(x, PyPtr):
                    x = ex.read(st, x.base)
                ex.write(st, lv, self.concat(ex, d, v, x))
                return lv
        if m in ("max_size", "capacity"):
            return I(ex.MAXLEN)
        raise VCError("vector method %s at line %s" % (m, e["l"]))

    def len_ok(self, ex, st, lv):
        v = ex.read(st, lv)
        ex.assume(st, vlen(v) <= ex.MAXLEN)
        ex.trusted.add("container sizes stay below 2^31 (allocation would fail first)")

    def concat(self, ex, d, v, x):
        n, k = vlen(v), vlen(x)
        oa, xa = acc(v, "arr"), acc(x, "arr")
        if z3.is_int_value(k):
            a = oa
            for j in range(k.as_long()):
                a = z3.Store(a, sym.simp_num(n + j), sel(xa, I(j)))
            return d.ctor(sym.simp_num(n + k), a)
        na = ex.fresh("cat", oa.sort())
        i = z3.FreshConst(z3.IntSort(), "i")
        ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(i < n, z3.Select(oa, i), z3.Select(xa, i - n)), patterns=[z3.Select(na, i)]))
        return d.ctor(n + k, na)

    def emplace(self, ex, ek, fn, A, e, st):
        raise VCError("emplace_back at line %s" % e["l"])

    # ---- vector iterators ------------------------------------------------------------
    def iter_call(self, ex, m, fn, e, st):
        A = e["args"]
        if "obj" not in e:
            return self.op_call(ex, m[8:], fn, e, st)
        if m in ("operator*", "operator->"):
            p = ex.as_idxptr(ex.eval(e["obj"], st))
            tk = None
            if not isinstance(p, PyPtr) or p.base is None:
                raise VCError("iterator dereference")
            lv = ex.deref(p, st, tk, e["l"])
            return lv if m == "operator*" else PyPtr(lv)
        if m in ("operator++", "operator--"):
            lv = ex.lval(e["obj"], st)
            p = ex.as_idxptr(ex.read(st, lv))
            q = ex.ptr_add(p, I(1) if m == "operator++" else I(-1), st)
            ex.write(st, lv, q)
            return p if len(A) else lv
        if m in ("operator+", "operator-"):
            p = ex.as_idxptr(ex.eval(e["obj"], st))
            x = ex.eval(A[0], st)
            if z3.is_expr(x) and z3.is_int(x):
                return ex.ptr_add(p, x if m == "operator+" else -x, st)
            return ex.ptr_off(p, ex.as_idxptr(x), st)
        if m in ("operator+=", "operator-="):
            lv = ex.lval(e["obj"], st)
            p = ex.as_idxptr(ex.read(st, lv))
            x = ex.eval(A[0], st)
            ex.write(st, lv, ex.ptr_add(p, x if m == "operator+=" else -x, st))
            return lv
        if m == "operator[]":
            p = ex.as_idxptr(ex.eval(e["obj"], st))
            x = ex.eval(A[0], st)
            return ex.deref(ex.ptr_add(p, x, st), st, None, e["l"])
        if m == "base":
            return ex.eval(e["obj"], st)
        if m == "operator=":
            v = ex.eval(A[0], st)
            lv = ex.lval(e["obj"], st)
            ex.write(st, lv, v)
            return lv
        raise VCError("iterator " + m)

    MAPLIKE = {"value", "get", "get_or_create_bin", "set_value", "add_value", "find", "begin", "end", "size", "empty", "clear", "erase", "swap", "operator[]", "operator=", "iterator", "const_iterator", "operator*", "operator->", "operator++", "operator==", "operator!="}

    # ---- maps and sets -----------------------------------------------------------------
    def map_call(self, ex, m, fn, e, st):
        lv = self.objlv(ex, e, st)
        v = ex.read(st, lv)
        if v is None or not z3.is_expr(v) or not (is_map(v) or is_set(v)):
            raise VCError("map operation")
        A = e["args"]
        d = dtinfo(v.sort())
        ismap = is_map(v)
        rlv = ex.resolve(st, lv)
        otk = ex.u.strip_ref(e["obj"]["t"]) if not e.get("objptr") else ex.ty(e["obj"])["to"]
        if m in ("size", "empty"):
            kq = z3.FreshConst(acc(v, "dom").sort().domain(), "k")
            ex.facts.append(z3.ForAll([kq], z3.Implies(sel(acc(v, "dom"), kq), acc(v, "size") >= 1)))
            ex.facts.append(acc(v, "size") >= 0)
        if m == "size":
            return acc(v, "size")
        if m == "empty":
            # size is the cardinality of the domain
            ex.trusted.add("container size() equals the number of keys")
            return acc(v, "size") == 0
        if m in ("value", "get"):
            k = ex.storable(ex.eval(A[0], st))
            v = ex.read(st, lv)
            return If(sel(acc(v, "dom"), k), sel(acc(v, "val"), k), ex.storable(self.value_init(ex, st, ex.u.ty(otk)["args"][0])))
        if m in ("find", "count", "operator[]", "at", "get_or_create_bin", "set_value", "add_value"):
            k = ex.storable(ex.eval(A[0], st))
            v = ex.read(st, lv)
            indom = sel(acc(v, "dom"), k)
            if m == "find":
                return MapIt(rlv, k, Not(indom))
            if m == "count":
                return If(indom, I(1), I(0))
            if m == "at":
                st.reach = And(st.reach, indom)
                return lv.ext(("m", k))
            # operator[]: default-construct when absent
            dv = ex.storable(self.value_init(ex, st, ex.u.ty(otk)["args"][1 if ex.u.ty(otk)["name"] in ir.MAPS else 0]))
            if m in ("set_value", "add_value"):
                x = ex.storable(ex.eval(A[1], st))
                v = ex.read(st, lv)
                old = If(indom, sel(acc(v, "val"), k), dv)
                ex.write(st, lv, d.ctor(z3.Store(acc(v, "dom"), k, TRUE), z3.Store(acc(v, "val"), k, x if m == "set_value" else old + x), If(indom, acc(v, "size"), acc(v, "size") + 1)))
                return lv.ext(("m", k))
            nv = z3.Store(acc(v, "val"), k, If(indom, sel(acc(v, "val"), k), dv))
            ex.write(st, lv, d.ctor(z3.Store(acc(v, "dom"), k, TRUE), nv, If(indom, acc(v, "size"), acc(v, "size") + 1)))
            return lv.ext(("m", k))
        if m in ("begin", "cbegin"):
            keys = ex.enum_keys(st, v)
            it = ex.mapit_at(rlv, keys, I(0))
            return it
        if m in ("end", "cend"):
            return MapIt(rlv, ex.fresh("endkey", acc(v, "dom").sort().domain()), TRUE)
        if m == "clear":
            if ismap:
                ex.write(st, lv, d.ctor(z3.K(acc(v, "dom").sort().domain(), FALSE), acc(v, "val"), I(0)))
            else:
                ex.write(st, lv, d.ctor(z3.K(acc(v, "dom").sort().domain(), FALSE), I(0)))
            return TRUE
        if m in ("insert", "emplace"):
            if len(A) == 1:
                x = ex.storable(ex.eval(A[0], st))
                v = ex.read(st, lv)
                if ismap:
                    k, val = acc(x, "first"), acc(x, "second")
                    indom = sel(acc(v, "dom"), k)
                    ex.write(st, lv, d.ctor(z3.Store(acc(v, "dom"), k, TRUE), z3.Store(acc(v, "val"), k, If(indom, sel(acc(v, "val"), k), val)),
                                            If(indom, acc(v, "size"), acc(v, "size") + 1)))
                else:
                    k = x
                    indom = sel(acc(v, "dom"), k)
                    ex.write(st, lv, d.ctor(z3.Store(acc(v, "dom"), k, TRUE), If(indom, acc(v, "size"), acc(v, "size") + 1)))
                return PyPair(MapIt(rlv, k, FALSE), Not(indom))
            raise VCError("map range insert at line %s" % e["l"])
        if m == "erase":
            a = ex.eval(A[0], st)
            if isinstance(a, MapIt):
                k = a.key
                ex.oblige(st, "erase of valid iterator", Not(a.end), "safety", e["l"])
            else:
                k = ex.storable(a)
            v = ex.read(st, lv)
            indom = sel(acc(v, "dom"), k)
            vals = [z3.Store(acc(v, "dom"), k, FALSE)] + ([acc(v, "val")] if ismap else []) + [If(indom, acc(v, "size") - 1, acc(v, "size"))]
            ex.write(st, lv, d.ctor(*vals))
            return If(indom, I(1), I(0))
        if m == "swap":
            o = ex.lval(A[0], st)
            w = ex.read(st, o)
            ex.write(st, lv, w)
            ex.write(st, o, v)
            return TRUE
        if m == "operator=":
            x = ex.eval(A[0], st)
            ex.write(st, lv, x)
            return lv
        if m in ("reserve", "rehash", "max_load_factor"):
            return TRUE
        raise VCError("map method %s at line %s" % (m, e["l"]))

    def mapiter_call(self, ex, m, fn, e, st):
        A = e["args"]
        if "obj" not in e:
            return self.op_call(ex, m[8:], fn, e, st)
        if m in ("operator*", "operator->"):
            it = ex.eval(e["obj"], st)
            lv = ex.deref(it, st, None, e["l"])
            return lv if m == "operator*" else PyPtr(lv)
        if m == "operator++":
            lv = ex.lval(e["obj"], st)
            it = ex.read(st, lv)
            if it.keys is None:
                raise VCError("increment of a map iterator not from begin()")
            ex.oblige(st, "increment of valid iterator", Not(it.end), "safety", e["l"])
            ex.write(st, lv, ex.mapit_at(it.base, it.keys, sym.simp_num(it.idx + 1)))
            return it if len(A) else lv
        if m in ("operator==", "operator!="):
            a = ex.eval(e["obj"], st)
            b = ex.eval(A[0], st)
            r = ex.mapit_eq(a, b)
            return r if m == "operator==" else Not(r)
        if m == "operator=":
            v = ex.eval(A[0], st)
            lv = ex.lval(e["obj"], st)
            ex.write(st, lv, v)
            return lv
        raise VCError("map iterator " + m)

    # ---- smart pointers (owning pointers modelled as embedded values) -------------------
    def sp_call(self, ex, m, fn, e, st):
        A = e["args"]
        if m in ("operator->", "operator*", "get"):
            lv = self.objlv(ex, e, st)
            v = ex.read(st, lv)
            ex.trusted.add("smart-pointer targets are not mutated through another alias while in use")
            if m != "get":
                ex.oblige(st, "smart pointer non-null", acc(v, "nonnull"), "safety", e["l"])
                t = lv.ext(("sp",))
                return PyPtr(t) if m == "operator->" else t
            return PyPtr(lv.ext(("sp",)), None, Not(acc(v, "nonnull")))
        if m == "operator bool":
            return acc(ex.eval(e["obj"], st), "nonnull")
        if m == "operator!":
            return Not(acc(ex.eval(e["obj"], st), "nonnull"))
        if m == "operator=":
            v = ex.eval(A[0], st)
            lv = self.objlv(ex, e, st)
            ex.write(st, lv, v)
            return lv
        if m == "reset":
            lv = self.objlv(ex, e, st)
            if not A:
                cur = ex.read(st, lv)
                ex.write(st, lv, dtinfo(cur.sort()).ctor(FALSE, acc(cur, "val")))
                return TRUE
            v = ex.eval(A[0], st)
            cur = ex.read(st, lv)
            d = dtinfo(cur.sort())
            pt = ex.u.ty(ex.u.strip_ref(A[0]["t"]))
            o = ex.deref(v, st, pt["to"], e["l"])
            ex.write(st, lv, d.ctor(TRUE, ex.read(st, o)))
            return TRUE
        if m == "make_shared":
            raise VCError("make_shared")
        raise VCError("smart pointer " + m)

    # ---- operators on library types -------------------------------------------------------
    def op_call(self, ex, op, fn, e, st):
        A = ([e["obj"]] if "obj" in e else []) + e["args"]
        if op in ("<<", ">>") and len(A) == 2 and ("stream" in A[0]["t"] or "ios" in A[0]["t"]):
            lv = ex.x_any(A[0], st)
            try:
                ex.eval_void(A[1], st)
            except VCError:
                pass
            return lv
        if len(A) == 2:
            a, b = ex.eval(A[0], st), ex.eval(A[1], st)
            if isinstance(a, MapIt) or isinstance(b, MapIt):
                r = ex.mapit_eq(a, b)
                return r if op == "==" else Not(r)
            pp = lambda x: isinstance(x, PyPtr) or (z3.is_expr(x) and x.sort() == ptr_sort())
            ka, kb = ex.u.kind(A[0]["t"]), ex.u.kind(A[1]["t"])
            if ka == "iter" or kb == "iter":
                a, b = ex.as_idxptr(a), ex.as_idxptr(b)
                if op == "==":
                    return ex.ptr_eq(a, b, st)
                if op == "!=":
                    return Not(ex.ptr_eq(a, b, st))
                if op == "-":
                    return ex.ptr_off(a, b, st)
                if op == "+":
                    return ex.ptr_add(a, b, st) if pp(a) else ex.ptr_add(b, a, st)
                dd = ex.ptr_off(a, b, st)
                return {"<": dd < 0, ">": dd > 0, "<=": dd <= 0, ">=": dd >= 0}[op]
            if ka == "sp" or kb == "sp":
                x = a if ka == "sp" else b
                y = b if ka == "sp" else a
                if isinstance(y, PyPtr) and y.base is None or kb == "nullptr" or ex.u.ty(ex.u.strip_ref(A[1]["t"]))["k"] == "nullptr":
                    r = Not(acc(x, "nonnull"))
                    return r if op == "==" else Not(r)
                raise VCError("smart pointer comparison")
            if isinstance(a, PyPtr) and a.base is not None and z3.is_expr(b) and is_vec(b):
                a = ex.read(st, a.base)
            if isinstance(b, PyPtr) and b.base is not None and z3.is_expr(a) and is_vec(a):
                b = ex.read(st, b.base)
            if op == "+" and z3.is_expr(a) and z3.is_expr(b) and is_vec(a):
                if z3.is_int(b):
                    return dtinfo(a.sort()).ctor(vlen(a) + 1, z3.Store(acc(a, "arr"), vlen(a), b))
                return self.concat(ex, dtinfo(a.sort()), a, b)
            if op in ("==", "!=", "<", ">", "<=", ">=") and z3.is_expr(a) and z3.is_expr(b):
                tk = ex.u.strip_ref(A[0]["t"])
                if op in ("==", "!="):
                    r = self.deep_eq(ex, a, b)
                    return r if op == "==" else Not(r)
                lt = self.lex_lt(ex, a, b)
                if op == "<":
                    return lt
                if op == ">=":
                    return Not(lt)
                gt = self.lex_lt(ex, b, a)
                return gt if op == ">" else Not(gt)
        raise VCError("operator%s on %s at line %s" % (op, [x["t"] for x in A], e["l"]))

    def deep_eq(self, ex, a, b):
        if is_vec(a):
            i = z3.FreshConst(z3.IntSort(), "i")
            x, y = z3.Select(acc(a, "arr"), i), z3.Select(acc(b, "arr"), i)
            return z3.And(vlen(a) == vlen(b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vlen(a)), self.deep_eq(ex, x, y))))
        d = dtinfo(a.sort())
        if d is not None and d.fields == ["first", "second"]:
            return And(self.deep_eq(ex, acc(a, "first"), acc(b, "first")), self.deep_eq(ex, acc(a, "second"), acc(b, "second")))
        if d is None:
            return ex.compare("==", a, b)
        if is_set(a):
            return acc(a, "dom") == acc(b, "dom")
        raise VCError("equality on " + str(a.sort()))

    def lex_lt(self, ex, a, b):
        d = dtinfo(a.sort())
        if d is not None and d.fields == ["first", "second"]:
            f = self.lex_lt(ex, acc(a, "first"), acc(b, "first"))
            g = self.lex_lt(ex, acc(b, "first"), acc(a, "first"))
            return Or(f, And(Not(g), self.lex_lt(ex, acc(a, "second"), acc(b, "second"))))
        if d is None:
            return ex.compare("<", a, b)
        if is_vec(a):
            # first difference position p: a ghost function of the two sequences
            p = z3.FreshConst(z3.IntSort(), "lcp")
            i = z3.FreshConst(z3.IntSort(), "i")
            A, Bb = acc(a, "arr"), acc(b, "arr")
            ex.facts.append(z3.And(p >= 0, p <= vlen(a), p <= vlen(b)))
            ex.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), z3.Select(A, i) == z3.Select(Bb, i))))
            ex.facts.append(z3.Or(p == vlen(a), p == vlen(b), z3.Select(A, p) != z3.Select(Bb, p)))
            return z3.And(p < vlen(b), z3.Or(p == vlen(a), self.lex_lt(ex, z3.Select(A, p), z3.Select(Bb, p))))
        raise VCError("ordering on " + str(a.sort()))

    # ---- free functions ------------------------------------------------------------------------
    def ev(self, ex, e, st):
        return [ex.eval(a, st) for a in e["args"]]

    def f_max(self, ex, fn, e, st):
        a, b = self.ev(ex, e, st)[:2]
        return If(self.lex_lt(ex, a, b), b, a)

    def f_min(self, ex, fn, e, st):
        a, b = self.ev(ex, e, st)[:2]
        return If(self.lex_lt(ex, b, a), b, a)

    def f_make_pair(self, ex, fn, e, st):
        a, b = self.ev(ex, e, st)
        if isinstance(a, MapIt) or isinstance(b, MapIt):
            return PyPair(a, b)
        tk = ex.u.strip_ref(e["t"])
        d = dtinfo(ex.u.sort(tk))
        return d.ctor(ex.storable(a), ex.storable(b))

    def f_move(self, ex, fn, e, st):
        if len(e["args"]) == 1:
            return ex.x_any(e["args"][0], st)
        return self.f_copy(ex, fn, e, st)

    def f_forward(self, ex, fn, e, st):
        return ex.x_any(e["args"][0], st)

    def f_addressof(self, ex, fn, e, st):
        return PyPtr(ex.lval(e["args"][0], st))

    def f_swap(self, ex, fn, e, st):
        a, b = ex.lval(e["args"][0], st), ex.lval(e["args"][1], st)
        x, y = ex.read(st, a), ex.read(st, b)
        ex.write(st, a, y)
        ex.write(st, b, x)
        return TRUE

    def f_iter_swap(self, ex, fn, e, st):
        a, b = [ex.deref(ex.as_idxptr(p), st, None, e["l"]) for p in self.ev(ex, e, st)]
        x, y = ex.read(st, a), ex.read(st, b)
        ex.write(st, a, y)
        ex.write(st, b, x)
        return TRUE

    def f_abs(self, ex, fn, e, st):
        a, = self.ev(ex, e, st)
        return If(a >= 0, a, -a)
    f_fabs = f_abs
    f_labs = f_abs

    def f_isnan(self, ex, fn, e, st):
        self.ev(ex, e, st)
        ex.trusted.add("floating point treated as real numbers (no NaN/inf/rounding)")
        return FALSE
    f_isinf = f_isnan

    def f_signbit(self, ex, fn, e, st):
        a, = self.ev(ex, e, st)
        ex.trusted.add("floating point treated as real numbers (no NaN/inf/rounding)")
        return a < 0

    def f_infinity(self, ex, fn, e, st):
        ex.trusted.add("infinity is some real number that no computed value reaches")
        return z3.Real("m_infinity")

    def math(name, n=1):
        def f(self, ex, fn, e, st):
            a = self.ev(ex, e, st)
            a = [z3.ToReal(x) if z3.is_int(x) else x for x in a]
            ex.trusted.add("math function %s uninterpreted" % name)
            return mathfn(name, n)(*a)
        return f
    f_exp = f_expf = math("exp")
    f_log = f_logf = math("log")
    f_log10 = math("log10")
    f_log1p = math("log1p")
    f_expm1 = math("expm1")
    f_sqrt = math("sqrt")
    f_pow = math("pow", 2)
    f_lgamma = math("lgamma")

    def f_floor(self, ex, fn, e, st):
        a, = self.ev(ex, e, st)
        return z3.ToReal(z3.ToInt(a))

    def f_ceil(self, ex, fn, e, st):
        a, = self.ev(ex, e, st)
        return -z3.ToReal(z3.ToInt(-a))

    def f_distance(self, ex, fn, e, st):
        a, b = [ex.as_idxptr(x) for x in self.ev(ex, e, st)]
        return ex.ptr_off(b, a, st)

    def f_next(self, ex, fn, e, st):
        a = self.ev(ex, e, st)
        return ex.ptr_add(ex.as_idxptr(a[0]), a[1] if len(a) > 1 else I(1), st)

    def f_advance(self, ex, fn, e, st):
        lv = ex.lval(e["args"][0], st)
        n = ex.eval(e["args"][1], st)
        ex.write(st, lv, ex.ptr_add(ex.as_idxptr(ex.read(st, lv)), n, st))
        return TRUE

    def rng(self, ex, a, b, st, line):
        a, b = ex.as_idxptr(a), ex.as_idxptr(b)
        if isinstance(a, PyPtr) and isinstance(b, PyPtr):
            if not a.base.same(b.base):
                raise VCError("range over different containers")
            v = ex.read(st, a.base)
            ex.oblige(st, "range valid", And(a.idx >= 0, a.idx <= b.idx, b.idx <= vlen(v)), "bounds", line)
            return a.base, a.idx, b.idx, v
        raise VCError("range")

    def f_fill(self, ex, fn, e, st):
        a, b, x = self.ev(ex, e, st)
        base, i0, i1, v = self.rng(ex, a, b, st, e["l"])
        x = ex.storable(x)
        oa = acc(v, "arr")
        x = self.conv_num(x, oa.sort().range())
        d = dtinfo(v.sort())
        if z3.is_int_value(i0) and i0.as_long() == 0 and i1.eq(vlen(v)):
            ex.write(st, base, d.ctor(vlen(v), z3.K(z3.IntSort(), x)))
            return TRUE
        na = ex.fresh("filled", oa.sort())
        i = z3.FreshConst(z3.IntSort(), "i")
        ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= i0, i < i1), x, z3.Select(oa, i)), patterns=[z3.Select(na, i)]))
        ex.write(st, base, d.ctor(vlen(v), na))
        return TRUE

    def conv_num(self, x, s):
        if s == z3.RealSort() and z3.is_int(x):
            return z3.ToReal(x)
        if s == z3.IntSort() and z3.is_bool(x):
            return If(x, I(1), I(0))
        if s == z3.BoolSort() and z3.is_int(x):
            return x != 0
        return x

    def f_back_inserter(self, ex, fn, e, st):
        return ("back_inserter", ex.x_any(e["args"][0], st), ex.u.elem(ex.u.strip_ref(e["args"][0]["t"])))

    def f_make_shared(self, ex, fn, e, st):
        d = dtinfo(ex.u.sort(e["t"]))
        if d is None:
            return ex.fresh("sp", ex.u.sort(e["t"]))
        A = e["args"]
        if not A:
            return d.ctor(TRUE, self.value_init(ex, st, fn["targs"][0]))
        if len(A) == 1:
            v = ex.eval(A[0], st)
            if z3.is_expr(v) and v.sort() == d.acc[1].range():
                return d.ctor(TRUE, v)
        raise VCError("make_shared with constructor arguments at line %s" % e["l"])

    def f_copy(self, ex, fn, e, st):
        if "back_insert" in e["t"]:
            a, b = ex.as_idxptr(ex.eval(e["args"][0], st)), ex.as_idxptr(ex.eval(e["args"][1], st))
            o = ex.eval(e["args"][2], st)
            if not (isinstance(o, tuple) and o[0] == "back_inserter"):
                raise VCError("copy target")
            if not a.base.same(b.base):
                raise VCError("copy range")
            src, lv = ex.read(st, a.base), o[1]
            v = ex.read(st, lv)
            d = dtinfo(v.sort())
            n, cnt = vlen(v), sym.simp_num(b.idx - a.idx)
            ex.oblige(st, "copied range valid", And(a.idx >= 0, cnt >= 0, b.idx <= vlen(src)), "bounds", e["l"])
            if ex.resolve(st, a.base).same(ex.resolve(st, lv)):
                ex.oblige(st, "appending a vector to itself", FALSE, "alias", e["l"])
            oa, sa = acc(v, "arr"), acc(src, "arr")
            na = ex.fresh("app", oa.sort())
            i = z3.FreshConst(z3.IntSort(), "i")
            ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(i < n, z3.Select(oa, i), z3.Select(sa, a.idx + i - n)), patterns=[z3.Select(na, i)]))
            ex.facts.append(z3.ForAll([i], z3.Implies(i < n, z3.Select(na, i) == z3.Select(oa, i)), patterns=[z3.Select(oa, i)]))
            ex.write(st, lv, d.ctor(sym.simp_num(n + cnt), na))
            self.len_ok(ex, st, lv)
            return o
        a, b, o = self.ev(ex, e, st)
        base, i0, i1, v = self.rng(ex, a, b, st, e["l"])
        o = ex.as_idxptr(o)
        dst = ex.read(st, o.base)
        n = sym.simp_num(i1 - i0)
        ex.oblige(st, "copy destination in range", And(o.idx >= 0, o.idx + n <= vlen(dst)), "bounds", e["l"])
        self.copy_into(ex, st, o.base, o.idx, acc(v, "arr"), i0, n)
        return PyPtr(o.base, sym.simp_num(o.idx + n))

    def copy_into(self, ex, st, dlv, doff, sarr, soff, n):
        dst = ex.read(st, dlv)
        d = dtinfo(dst.sort())
        oa = acc(dst, "arr")
        if sarr.sort() != oa.sort():
            raise VCError("copy between different element types")
        na = ex.fresh("copied", oa.sort())
        i = z3.FreshConst(z3.IntSort(), "i")
        ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= doff, i < doff + n), z3.Select(sarr, i - doff + soff), z3.Select(oa, i)), patterns=[z3.Select(na, i)]))
        ex.write(st, dlv, d.ctor(vlen(dst), na))

    def f_memcpy(self, ex, fn, e, st):
        dp, sp, n = self.ev(ex, e, st)
        size = self.elem_size(ex, e["args"][0])
        ssize = self.elem_size(ex, e["args"][1])
        if size is None or size != ssize:
            raise VCError("memcpy between differently sized elements")
        cnt = n if size == 1 else self.div_size(n, size)
        if cnt is None:
            # not syntactically a multiple
            ex.oblige(st, "memcpy length is a multiple of the element size", n % size == 0, "bounds", e["l"])
            cnt = n / size
        if isinstance(dp, PyPtr) and isinstance(sp, PyPtr) and dp.base is not None and sp.base is not None and dp.idx is None and sp.idx is None:
            # one whole object onto another of the same class
            x, y = ex.read(st, sp.base), ex.read(st, dp.base)
            if not (z3.is_int_value(cnt) and cnt.as_long() == 1 and x.sort() == y.sort()):
                raise VCError("memcpy of part of an object")
            ex.write(st, dp.base, x)
            return dp
        dlv, di = self.ptr_parts(ex, dp, st, e["args"][0])
        slv, si = self.ptr_parts(ex, sp, st, e["args"][1])
        sv, dv = ex.read(st, slv), ex.read(st, dlv)
        ex.oblige(st, "memcpy source in range", Or(cnt == 0, And(si >= 0, si + cnt <= vlen(sv))), "bounds", e["l"])
        ex.oblige(st, "memcpy destination in range", Or(cnt == 0, And(di >= 0, di + cnt <= vlen(dv))), "bounds", e["l"])
        self.copy_into(ex, st, dlv, di, acc(sv, "arr"), si, cnt)
        return dp

    f_memmove = f_memcpy

    def f_memset(self, ex, fn, e, st):
        dp, c, n = self.ev(ex, e, st)
        size = self.elem_size(ex, e["args"][0])
        cnt = n if size == 1 else self.div_size(n, size)
        if cnt is None:
            ex.oblige(st, "memset length is a multiple of the element size", n % size == 0, "bounds", e["l"])
            cnt = n / size
        if isinstance(dp, PyPtr) and dp.base is not None and dp.idx is None and z3.is_int_value(cnt) and cnt.as_long() == 1:
            # a whole object: its contents are left unspecified
            y = ex.read(st, dp.base)
            nv = ex.fresh("memset", y.sort())
            ex.facts.extend(ex.type_facts(nv, self.pointee(ex, e["args"][0])))
            ex.write(st, dp.base, nv)
            return dp
        dlv, di = self.ptr_parts(ex, dp, st, e["args"][0])
        dv = ex.read(st, dlv)
        ex.oblige(st, "memset range", Or(cnt == 0, And(di >= 0, di + cnt <= vlen(dv))), "bounds", e["l"])
        if not z3.is_int_value(c) or c.as_long() != 0:
            if size != 1:
                raise VCError("memset with non-zero byte")
            x = c
        else:
            es = acc(dv, "arr").sort().range()
            x = {z3.IntSort(): I(0), z3.RealSort(): z3.RealVal(0), z3.BoolSort(): FALSE}.get(es)
            if x is None:
                raise VCError("memset of class type")
        oa = acc(dv, "arr")
        na = ex.fresh("memset", oa.sort())
        i = z3.FreshConst(z3.IntSort(), "i")
        ex.facts.append(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= di, i < di + cnt), x, z3.Select(oa, i)), patterns=[z3.Select(na, i)]))
        ex.write(st, dlv, dtinfo(dv.sort()).ctor(vlen(dv), na))
        return dp

    def ptr_parts(self, ex, p, st, a):
        p = ex.as_idxptr(p)
        if isinstance(p, PyPtr):
            if p.base is None:
                raise VCError("null pointer operand")
            if p.idx is None:
                raise VCError("object pointer operand")
            return p.base, p.idx
        tk = self.pointee(ex, a)
        r = ex.heap_root(st, tk, ex.u.sort(tk))
        return LV(r, (("ix", acc(p, "blk")),)), acc(p, "off")

    def pointee(self, ex, a):
        while a["k"] == "cast" and a["ck"] in ("BitCast", "NoOp") or a["k"] == "load":
            if a["k"] == "load":
                break
            a = a["e"]
        t = ex.u.ty(ex.u.strip_ref(a["t"]))
        if t["k"] in ("ptr", "array"):
            return t["to"]
        return None

    def elem_size(self, ex, a):
        tk = self.pointee(ex, a)
        if tk is None:
            return None
        t = ex.u.ty(tk)
        return t.get("size")

    def div_size(self, n, size):
        if z3.is_int_value(n):
            return I(n.as_long() // size) if n.as_long() % size == 0 else None
        # If(n*size >= 2^64, ..., n*size) produced by exact unsigned multiplication
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            inner = n.arg(2)
            r = self.div_size(inner, size)
            if r is not None:
                return If(n.arg(0), n.arg(1) / size, r)
            return None
        if z3.is_mul(n):
            ch = n.children()
            for c in ch:
                if z3.is_int_value(c) and c.as_long() == size:
                    rest = [x for x in ch if x is not c]
                    r = rest[0]
                    for x in rest[1:]:
                        r = r * x
                    return r
        return None

    def f___assert_fail(self, ex, fn, e, st):
        st.reach = FALSE
        return TRUE

    def f_abort(self, ex, fn, e, st):
        st.reach = FALSE
        return TRUE
    f_exit = f_abort

    def f_get(self, ex, fn, e, st):
        lv = ex.x_any(e["args"][0], st)
        i = fn.get("targs", [None])[0]
        if isinstance(lv, LV) and i in (0, 1):
            return ex.field(st, lv, "first" if i == 0 else "second", None, None)
        raise VCError("std::get")

    def f_binary_search(self, ex, fn, e, st):
        raise VCError("binary_search")

    def f_sort(self, ex, fn, e, st):
        a, b = self.ev(ex, e, st)[:2]
        base, i0, i1, v = self.rng(ex, a, b, st, e["l"])
        less = self.comparator(ex, fn, e, st, acc(v, "arr").sort().range(), 2)
        oa = acc(v, "arr")
        na = ex.fresh("sorted", oa.sort())
        n = ex.tmpn
        ex.tmpn += 1
        fw = z3.Function("sortfw!%d" % n, z3.IntSort(), z3.IntSort())
        bw = z3.Function("sortbw!%d" % n, z3.IntSort(), z3.IntSort())
        i, j = z3.FreshConst(z3.IntSort(), "i"), z3.FreshConst(z3.IntSort(), "j")
        inr = lambda t: z3.And(t >= i0, t < i1)
        ex.facts.append(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(fw(i)), z3.Select(na, i) == z3.Select(oa, fw(i)), bw(fw(i)) == i)), patterns=[z3.Select(na, i)]))
        ex.facts.append(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(bw(i)), z3.Select(na, bw(i)) == z3.Select(oa, i), fw(bw(i)) == i)), patterns=[z3.Select(oa, i)]))
        ex.facts.append(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), z3.Select(na, i) == z3.Select(oa, i)), patterns=[z3.Select(na, i)]))
        ex.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Not(less(z3.Select(na, j), z3.Select(na, i)))),
                                  patterns=[z3.MultiPattern(z3.Select(na, i), z3.Select(na, j))]))
        ex.write(st, base, dtinfo(v.sort()).ctor(vlen(v), na))
        return TRUE
    f_stable_sort = f_sort

    def comparator(self, ex, fn, e, st, es, pos):
        if len(e["args"]) > pos:
            c = e["args"][pos]
            cv = ex.x_any(c, st)
            if isinstance(cv, LV):
                cv = ex.read(st, cv)
            if isinstance(cv, FnRef):
                f = ex.u.functions.get(str(cv.fn.get("id")))
            elif isinstance(cv, Lam):
                f = ex.u.functions.get(str(cv.e["fn"].get("id")))
            else:
                tk = ex.u.strip_ref(c["t"])
                f = None
                for g in ex.u.byname.get(ex.u.ty(tk).get("name", "") + "::operator()", []):
                    f = g
            if f is None:
                raise VCError("comparator without body")

            def less(x, y, f=f, cv=cv):
                s2 = st.fork()
                s2.reach = TRUE
                fr = sym.Frame(f, None)
                for p, v in zip(f["params"], (x, y)):
                    r = ("tmp", "cmp%d" % p["id"])
                    s2.vars[r] = v
                    s2.vars[p["id"]] = LV(r)
                if z3.is_expr(cv):
                    s2.vars[("tmp", "cmpobj")] = cv
                    fr.this = LV(("tmp", "cmpobj"))
                ex.frames.append(fr)
                ex.trial += 1
                try:
                    k = sym.K()
                    ex.exec(f["body"], s2, k)
                    outs = k.ret
                finally:
                    ex.frames.pop()
                    ex.trial -= 1
                r = outs[-1][1]
                for s, v in reversed(outs[:-1]):
                    r = If(s.reach, v, r)
                return r
            return less
        return lambda x, y: self.lex_lt(ex, x, y)

    def f_tie(self, ex, fn, e, st):
        raise VCError("std::tie")

    def f_hypot(self, ex, fn, e, st):
        raise VCError("hypot")


CFUNCS = {"exp", "log", "pow", "sqrt", "abs", "fabs", "memcpy", "memset", "memmove", "floor", "ceil", "isnan", "isinf", "labs", "log1p", "expm1",
          "lgamma", "expf", "logf", "log10", "abort", "exit", "__assert_fail"}


class PyPair:
    """pair of python-level values (e.g. an iterator and a flag)"""

    def __init__(self, a, b):
        self.first, self.second = a, b

    def spec_attr(self, n):
        return getattr(self, n)
