"""Symbolic execution of the extracted IR: generates proof obligations from contracts."""
import z3
from ir import *
import spec as SP
from spec import Env, SpecError, acc, sel, is_vec, is_map, is_set, vlen, vat, lift, is_instance

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
I = z3.IntVal


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def simp_num(t):
    if z3.is_int_value(t):
        return t
    if z3.is_int(t) and all(z3.is_int_value(c) for c in t.children()) and t.num_args():
        return z3.simplify(t)
    return t


class PtrTo:
    """loop shape: a null pointer that may come to point into an lvalue"""

    def __init__(self, base):
        self.base = base


HEAPNAMES = {}   # spec name after HEAP_ -> element type


class EscapeError(Exception):
    """the address of an element of this local vector is stored in memory"""


class LV:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def ext(self, *a):
        return LV(self.root, self.path + a)

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            for x, y in zip(a[1:], b[1:]):
                if z3.is_expr(x):
                    if not x.eq(y):
                        return False
                elif x != y:
                    return False
        return True

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + str(p) for p in self.path))


class PyPtr:
    """pointer/iterator into a known lvalue: element `idx` of vector-like lvalue `base`,
    or the object `base` itself (idx None)"""

    def __init__(self, base, idx=None, isnull=FALSE):
        self.base, self.idx, self.isnull = base, idx, isnull

    def spec_attr(self, a):
        if a == "idx":
            return self.idx if self.idx is not None or self.base is not None else I(0)
        raise SpecError("pointer has no " + a)

    def spec_null(self):
        return self.isnull


KEYPOS = {}
RECORD = None
BASELINE = {}
try:
    import json as _json
    import os as _os
    BASELINE = _json.load(open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "contracts", "locals.json")))
except (OSError, ValueError):
    pass


class MapIt:
    """iterator into a map/set lvalue"""

    def __init__(self, base, key, end, keys=None, idx=None):
        self.base, self.key, self.end, self.keys, self.idx = base, key, end, keys, idx

    def spec_attr(self, a):
        if a == "key":
            return self.key
        if a == "end":
            return self.end
        if a == "keys":
            return self.keys
        if a == "idx":
            return self.idx
        if a == "pos" and self.keys is not None and self.keys.get_id() in KEYPOS:
            return KEYPOS[self.keys.get_id()][0]    # place of a key in the enumeration
        raise SpecError("iterator has no " + a)


class Lam:
    def __init__(self, e, frame):
        self.e, self.frame = e, frame


class FnRef:
    def __init__(self, fn):
        self.fn = fn


class St:
    __slots__ = ("vars", "reach")

    def __init__(self, vars, reach):
        self.vars, self.reach = vars, reach

    def fork(self, c=None):
        return St(dict(self.vars), self.reach if c is None else And(self.reach, c))


class Frame:
    def __init__(self, fn, this=None):
        self.fn, self.this = fn, this
        self.names = {}       # source name -> [decl ids]
        self.loopno = 0
        self.param_ids = {p["id"] for p in fn["params"]} if fn else set()


class Obl:
    __slots__ = ("name", "kind", "facts", "goal", "loc", "fn", "res", "extra", "group")

    def __init__(self, name, kind, facts, goal, loc, fn):
        self.name, self.kind, self.facts, self.goal, self.loc, self.fn = name, kind, facts, goal, loc, fn
        self.res = None
        self.group = None


def as_link(v, want):
    """a smart pointer stored in the type it points to: kept as an opaque identity"""
    if z3.is_expr(v) and v.sort() != want:
        a, b = dtinfo(v.sort()), dtinfo(want)
        if a is not None and b is not None and b.name.startswith("Link<") and a.fields == b.fields == ["nonnull", "val"]:
            return b.ctor(acc(v, "nonnull"), z3.Function("link_of_" + str(b.acc[1].range()), a.acc[1].range(), b.acc[1].range())(acc(v, "val")))
    return v


class K:
    """control-flow collectors"""

    def __init__(self):
        self.brk, self.cont, self.ret = [], [], []
        self.gotos = {}     # label -> states waiting for it (forward jumps only)


def split_inv(x, i):
    if isinstance(x, tuple):
        return x
    return ("inv%d" % i, x)


class Contract:
    def __init__(self, q, params=None, requires=(), ensures=(), modifies=(), loops=None, pool=(), sig=None, returns_lv=None,
                 inline=False, assumed=False, ghosts=None, pures=(), opts=None, uses=(), havoc_result=True, axioms=(), hints=(), verify=True,
                 auto=True, entry_hints=(), float_mode=None, noalias=True):
        self.q, self.params = q, params
        self.requires = [x if isinstance(x, tuple) else ("pre%d" % i, x) for i, x in enumerate(requires)]
        self.ensures = [x if isinstance(x, tuple) else ("post%d" % i, x) for i, x in enumerate(ensures)]
        self.modifies = list(modifies)
        self.loops = loops or {}
        if isinstance(self.loops, (list, tuple)):
            self.loops = {i: l for i, l in enumerate(self.loops)}
        self.pool = list(pool)
        self.sig = sig
        self.returns_lv = returns_lv
        self.inline = inline
        self.assumed = assumed
        self.ghosts = ghosts or {}
        self.opts = opts or {}
        self.axioms = list(axioms)
        self.hints = list(hints)
        self.verify = verify
        self.auto = auto
        self.entry_hints = list(entry_hints)


class Exec:
    def __init__(self, unit, contracts, stl, solver=None, mode="A"):
        self.u = unit
        self.contracts = contracts          # dict q -> [Contract]
        self.stl = stl
        self.facts = []
        self.obls = []
        self.trial = 0
        self.frames = []
        self.tmpn = 0
        self.inline_stack = []
        self.loaded = set()
        self.keep = []
        self.solver = solver                # quick local solver: (facts, goal) -> bool
        self.mode = mode
        self.trusted = set()                # library contracts / assumptions used
        self.callees = set()                # contracts relied upon
        self.inlined = set()
        self.lib_used = set()
        self.auto_discharged = 0
        self.auto_failed = 0
        self.depth = 0
        self.dropped = []
        self.counters = []
        self.named = {}
        self.spec_errors = []

    # -- basics ------------------------------------------------------------
    def fresh(self, name, sort):
        t = z3.FreshConst(sort, name)
        for f in self.sort_facts(t):
            self.facts.append(f)
        return t

    MAXLEN = 2 ** 31 - 1

    def sort_facts(self, t, quant=True):
        d = dtinfo(t.sort())
        out = []
        if d is None:
            return out
        if is_vec(t):
            out.append(vlen(t) >= 0)
            out.append(vlen(t) <= self.MAXLEN)
            es = acc(t, "arr").sort().range()
            if quant and self.needs_facts(es):
                i = z3.FreshConst(z3.IntSort(), "i")
                e = z3.Select(acc(t, "arr"), i)
                fs = self.sort_facts(e)
                if fs:
                    out.append(z3.ForAll([i], z3.And(*fs), patterns=[e]))
        elif is_map(t) or is_set(t):
            out.append(acc(t, "size") >= 0)
            if is_map(t) and quant and self.needs_facts(acc(t, "val").sort().range()):
                k = z3.FreshConst(acc(t, "dom").sort().domain(), "k")
                e = z3.Select(acc(t, "val"), k)
                fs = self.sort_facts(e)
                if fs:
                    out.append(z3.ForAll([k], z3.And(*fs), patterns=[e]))
        else:
            for f in d.fields:
                out += self.sort_facts(acc(t, f))
        return out

    def needs_facts(self, s):
        d = dtinfo(s)
        if d is None:
            return False
        if d.fields == ["len", "arr"] or d.fields == ["dom", "val", "size"] or d.fields == ["dom", "size"]:
            return True
        return any(self.needs_facts(a.range()) for a in d.acc)

    def assume(self, st, f):
        if z3.is_true(f):
            return
        self.facts.append(f if z3.is_true(st.reach) else z3.Implies(st.reach, f))

    def oblige(self, st, name, goal, kind, line=0):
        if self.trial or z3.is_true(goal):
            return
        fr = self.frames[0].fn["q"] if self.frames else "?"
        cur = self.frames[-1].fn["q"] if self.frames else "?"
        if cur != fr:
            name = name + " (in " + cur + ")"
        self.obls.append(Obl(name, kind, len(self.facts), z3.Implies(st.reach, goal) if not z3.is_true(st.reach) else goal,
                             line, fr))

    def tmp(self, st, val, tag="tmp"):
        self.tmpn += 1
        r = ("tmp", self.tmpn)
        st.vars[r] = val
        return LV(r)

    # -- types -------------------------------------------------------------
    def int_range(self, tkey):
        t = self.u.ty(tkey)
        if t["k"] == "bool":
            return 0, 1
        w = t["w"]
        if t["s"]:
            return -(2 ** (w - 1)), 2 ** (w - 1) - 1
        return 0, 2 ** w - 1

    def type_facts(self, t, tkey):
        """facts true of any well-typed value, for scalars and one level of containers"""
        tkey = self.u.strip_ref(tkey)
        ty = self.u.ty(tkey)
        if ty["k"] == "int" and z3.is_int(t):
            lo, hi = self.int_range(tkey)
            return [t >= lo, t <= hi]
        if ty["k"] == "array" and z3.is_expr(t) and is_vec(t):
            return [vlen(t) == ty["n"]] if ty["n"] >= 0 else []
        if ty["k"] == "rec" and z3.is_expr(t) and tkey in self.u.records and self.u.records[tkey]:
            d = dtinfo(t.sort())
            out = []
            if d is not None and not is_vec(t) and not is_map(t):
                for f in self.u.records[tkey]["fields"]:
                    if f["name"] in d.ix:
                        try:
                            ft = self.u.ty(f["t"])
                            if ft["k"] in ("int", "rec", "array"):
                                out += self.type_facts(acc(t, f["name"]), f["t"])
                        except VCError:
                            pass
            return out
        return []

    def loadfact(self, st, t, tkey):
        if not z3.is_expr(t):
            return t
        i = t.get_id()
        if i in self.loaded or z3.is_int_value(t):
            return t
        k = self.u.kind(tkey)
        if k == "int":
            if z3.is_int(t):
                self.loaded.add(i)
                self.keep.append(t)
                for f in self.type_facts(t, tkey):
                    self.facts.append(f)
        elif k == "vec" and is_vec(t) and not z3.is_const(t):
            self.loaded.add(i)
            self.keep.append(t)
            self.facts.append(z3.And(vlen(t) >= 0, vlen(t) <= self.MAXLEN))
        return t

    def default_value(self, st, tkey, zero=False, raw=False):
        tkey = self.u.strip_ref(tkey)
        ty = self.u.ty(tkey)
        k = self.u.kind(tkey)
        s = self.u.sort(tkey)
        if k == "int":
            return I(0) if zero else self.fresh_typed("uninit", tkey)
        if k == "bool":
            return FALSE if zero else self.fresh("uninit", s)
        if k == "float":
            return z3.RealVal(0) if zero else self.fresh("uninit", s)
        if k in ("vec", "map", "set") and dtinfo(s) is None:
            return z3.Const("empty$" + sname(s), s)
        if k == "vec":
            d = dtinfo(s)
            return d.ctor(I(0), self.fresh("emptyarr", d.acc[1].range()))
        if k == "map":
            d = dtinfo(s)
            return d.ctor(z3.K(d.acc[0].range().domain(), FALSE), self.fresh("emptymap", d.acc[1].range()), I(0))
        if k == "set":
            d = dtinfo(s)
            return d.ctor(z3.K(d.acc[0].range().domain(), FALSE), I(0))
        if k == "sp":
            d = dtinfo(s)
            if d is None:
                return self.fresh("sp", s)
            return d.ctor(FALSE, self.fresh("spv", d.acc[1].range()))
        if k == "ptr":
            if zero:
                return ptr_null()
            return self.fresh("uninit", s)
        if k == "array":
            d = dtinfo(s)
            n = ty["n"]
            es = d.acc[1].range().range()
            try:
                ek = self.u.kind(ty["to"])
                simple = ek in ("vec", "map", "set", "rec") or zero
                ev = self.default_value(st, ty["to"], zero) if simple else None
            except VCError:
                ev = None
            if ev is None:
                return d.ctor(I(n), self.fresh("uninitarr", d.acc[1].range()))
            return d.ctor(I(n), z3.K(z3.IntSort(), ev))
        if k in ("iter", "mapiter"):
            return None
        if k == "rec":
            d = dtinfo(s)
            if d is None or tkey not in self.u.records or not self.u.records[tkey]:
                return self.fresh("opq", s)
            rec = self.u.records[tkey]
            if rec.get("udc") and not raw:
                # a default constructor written by the user: its effect if it is at hand, else anything
                q = ty["name"]
                for f in self.u.byname.get(q + "::" + q.split("::")[-1], []):
                    if f.get("ctor") and f.get("cls") == tkey and not f["params"] and "body" in f:
                        lv = self.tmp(st, self.default_value(st, tkey, raw=True))
                        self.inline(f, lv, [], None, st, ctor=True)
                        return st.vars[lv.root]
                return self.fresh_typed("dflt", tkey)
            # default member-wise initialisation (trivial/implicit constructors)
            vals = []
            fts = {f["name"]: f["t"] for f in rec["fields"]}
            for i, b in enumerate(rec["bases"]):
                fts["base$%d" % i] = b
            for f, a in zip(d.fields, d.acc):
                if f in fts:
                    try:
                        v = self.default_value(st, fts[f], zero or ty["name"] == "std::pair")
                    except VCError:
                        v = self.fresh("opq", a.range())
                    if v is None or (z3.is_expr(v) and v.sort() != a.range()):
                        v = self.fresh("opq", a.range())
                    vals.append(v)
                else:
                    vals.append(self.fresh("opq", a.range()))
            return d.ctor(*vals)
        return self.fresh("opq", s)

    def fresh_typed(self, name, tkey):
        s = self.u.sort(tkey)
        t = self.fresh(name, s)
        for f in self.type_facts(t, tkey):
            self.facts.append(f)
        return t

    # -- memory --------------------------------------------------------------
    def heap_root(self, st, tkey, es):
        r = ("heap", es.sexpr())
        if r not in st.vars:
            # heaps exist from the function entry on
            h = z3.Const("heap0!" + sname(es.sexpr()), z3.ArraySort(z3.IntSort(), vec_sort(es)))
            if r not in self.heap_init:
                self.heap_init[r] = h
                b = z3.FreshConst(z3.IntSort(), "b")
                self.facts.append(z3.ForAll([b], z3.And(vlen(z3.Select(h, b)) >= 0, vlen(z3.Select(h, b)) <= self.MAXLEN), patterns=[z3.Select(h, b)]))
            st.vars[r] = h
        return r

    def heap_term(self, st, name):
        """ALLOC: the allocation counter, every block in use is below it; HEAP_Int etc. in a contract: the blocks of that element sort; HEAP_Int[p.blk][i] is an element"""
        if name == "ALLOC":
            return self.alloc_term(st)
        es = {"Int": z3.IntSort(), "Bool": z3.BoolSort(), "Real": z3.RealSort()}.get(name[5:])
        if es is None:
            es = self.u.sort(HEAPNAMES.get(name[5:]) or name[5:].replace("__", "::"))
        r = ("heap", es.sexpr())
        if r in st.vars:
            return st.vars[r]
        self.heap_root(st, None, es)
        return st.vars[r]

    heap_init = None

    def getacc(self, st, t, p):
        k = p[0]
        if k == "f":
            if not z3.is_expr(t):
                return getattr(t, p[1])
            to = getattr(self, "link_targets", {}).get(str(t.sort()))
            if to is not None:
                t = z3.Function("target_of_" + str(t.sort()), t.sort(), to)(t)
            return acc(t, p[1])
        if k == "v":
            return vat(t, p[1])
        if k == "ix":
            return sel(t, p[1])
        if k == "m":
            return sel(acc(t, "val"), p[1])
        if k == "sp":
            return acc(t, "val")
        if k == "whole":
            return t
        raise VCError("path " + str(p))

    def read(self, st, lv):
        if lv.root not in st.vars:
            if isinstance(lv.root, tuple) and lv.root[0] == "heap" and self.heap_init and lv.root in self.heap_init:
                st.vars[lv.root] = self.heap_init[lv.root]
            else:
                raise VCError("read of unknown variable %s" % (lv.root,))
        t = st.vars[lv.root]
        if isinstance(t, LV):
            return self.read(st, LV(t.root, t.path + lv.path))
        for i, p in enumerate(lv.path):
            if p[0] == "mp":
                if i + 1 == len(lv.path):
                    raise VCError("pair view")
                nxt = lv.path[i + 1]
                if nxt[1] == "first":
                    t = p[1]
                else:
                    t = sel(acc(t, "val"), p[1])
                rest = lv.path[i + 2:]
                for q in rest:
                    t = self.getacc(st, t, q)
                return t
            t = self.getacc(st, t, p)
        return t

    def link(self, v, want):
        w = as_link(v, want)
        if w is not v:      # what the link leads to
            t = acc(w, "val")
            self.facts.append(z3.Function("target_of_" + str(t.sort()), t.sort(), acc(v, "val").sort())(t) == acc(v, "val"))
            self.link_targets = dict(getattr(self, "link_targets", {}), **{str(t.sort()): acc(v, "val").sort()})
        return w

    def upd(self, st, t, path, v):
        if not path:
            return v
        p = path[0]
        k = p[0]
        if k == "f":
            d = dtinfo(t.sort())
            i = d.ix[p[1]]
            nv = self.upd(st, acc(t, p[1]), path[1:], v)
            nv = self.link(nv, d.acc[i].range())
            vals = [nv if j == i else acc(t, f) for j, f in enumerate(d.fields)]
            rec = self.rec_of(d)
            if rec and rec.get("union"):
                vals = [nv if j == i else self.fresh("unionclobber", d.acc[j].range()) for j in range(len(d.fields))]
                for j, fl in enumerate(rec["fields"]):
                    if j != i and j < len(vals):
                        self.facts.extend(self.type_facts(vals[j], fl["t"]))
            return d.ctor(*vals)
        if k == "v":
            d = dtinfo(t.sort())
            a = acc(t, "arr")
            nv = self.upd(st, sel(a, p[1]), path[1:], v) if len(path) > 1 else v
            return d.ctor(acc(t, "len"), z3.Store(a, p[1], nv))
        if k == "ix":
            nv = self.upd(st, sel(t, p[1]), path[1:], v) if len(path) > 1 else v
            return z3.Store(t, p[1], nv)
        if k == "m" or k == "mp":
            if k == "mp":
                if len(path) < 2 or path[1][1] != "second":
                    raise VCError("write through pair view")
                path = path[1:]
            d = dtinfo(t.sort())
            a = acc(t, "val")
            nv = self.upd(st, sel(a, p[1]), path[1:], v) if len(path) > 1 else v
            return d.ctor(acc(t, "dom"), z3.Store(a, p[1], nv), acc(t, "size"))
        if k == "sp":
            d = dtinfo(t.sort())
            nv = self.upd(st, acc(t, "val"), path[1:], v)
            return d.ctor(acc(t, "nonnull"), nv)
        raise VCError("path " + str(p))

    def rec_of(self, d):
        return self.u.records.get(d.name)

    def write(self, st, lv, v):
        cur = st.vars.get(lv.root)
        if isinstance(cur, LV):
            return self.write(st, LV(cur.root, cur.path + lv.path), v)
        if lv.path:
            if cur is None:
                if isinstance(lv.root, tuple) and lv.root[0] == "heap" and self.heap_init and lv.root in self.heap_init:
                    cur = self.heap_init[lv.root]
                else:
                    raise VCError("write to unknown variable %s" % (lv.root,))
            nv = self.upd(st, cur, lv.path, self.storable(v))
            st.vars[lv.root] = nv
        else:
            st.vars[lv.root] = v

    heapvecs = ()
    redirect = {}

    def storable(self, v):
        if isinstance(v, PyPtr):
            if v.base is None:
                return ptr_null()
            b = v.base
            if b.root in self.redirect:
                b = LV(self.redirect[b.root].root, self.redirect[b.root].path + b.path)
            if isinstance(b.root, tuple) and b.root[0] == "heap" and len(b.path) == 1:
                return dtinfo(ptr_sort()).ctor(b.path[0][1], v.idx if v.idx is not None else I(0))
            if v.idx is None and isinstance(b.root, tuple) and b.root[0] == "heap" and len(b.path) == 2 and b.path[1][0] == "v":
                return dtinfo(ptr_sort()).ctor(b.path[0][1], b.path[1][1])
            if not isinstance(v.base.root, tuple) and len(v.base.path) <= 1 and v.base.root not in self.heapvecs:
                raise EscapeError(v.base.root)
            raise VCError("pointer to local stored in memory")
        if not z3.is_expr(v):
            raise VCError("cannot store %s" % type(v).__name__)
        return v

    # -- expressions -----------------------------------------------------------
    def ty(self, e):
        return self.u.ty(e["t"])

    def eval(self, e, st):
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise VCError("unsupported expression %s (%s) at line %s" % (k, e.get("cls", ""), e.get("l")))
        v = m(e, st)
        if isinstance(v, LV):
            v = self.read_typed(st, v, e["t"])
        return v

    def read_typed(self, st, lv, tkey):
        if lv.path and lv.path[-1][0] == "mp":
            base = self.read(st, LV(lv.root, lv.path[:-1]))
            d = dtinfo(self.u.sort(tkey))
            return d.ctor(lv.path[-1][1], sel(acc(base, "val"), lv.path[-1][1]))
        v = self.read(st, lv)
        if v is None:
            raise VCError("read of uninitialised iterator/pointer")
        return self.loadfact(st, v, tkey)

    def lval(self, e, st):
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise VCError("unsupported expression %s (%s) at line %s" % (k, e.get("cls", ""), e.get("l")))
        v = m(e, st)
        if isinstance(v, LV):
            return v
        return self.tmp(st, v)

    def x_load(self, e, st):
        return self.eval(e["e"], st)

    def x_temp(self, e, st):
        if self.u.kind(e["t"]) == "bitref":     # a proxy for the element, not a copy of it
            v = self.x_any(e["e"], st)
            if isinstance(v, LV):
                return v
        v = self.eval(e["e"], st)
        return self.tmp(st, v)

    def x_int(self, e, st):
        return I(int(e["v"]))

    def x_bool(self, e, st):
        return z3.BoolVal(bool(e["v"]))

    def x_float(self, e, st):
        from fractions import Fraction
        s = e["v"]
        try:
            return z3.RealVal(str(Fraction(s)))
        except Exception:
            raise VCError("float literal " + s)

    def x_str(self, e, st):
        bs = e["v"]
        vs = vec_sort(z3.IntSort())
        d = dtinfo(vs)
        a = z3.K(z3.IntSort(), I(0))
        for i, b in enumerate(bs):
            a = z3.Store(a, i, I(b))
        return PyPtr(self.tmp(st, d.ctor(I(len(bs)), a)), I(0))

    def x_null(self, e, st):
        return PyPtr(None, None, TRUE)

    def x_nop(self, e, st):
        return TRUE

    def x_zeroinit(self, e, st):
        return self.default_value(st, e["t"], zero=True)

    def x_this(self, e, st):
        return PyPtr(self.frames[-1].this)

    def x_var(self, e, st):
        if e.get("global"):
            r = ("glob", e["q"])
            if r not in st.vars:
                if "ginit" in e:
                    v = self.eval(e["ginit"], st)
                else:
                    if r not in self.glob_init:
                        self.glob_init[r] = self.fresh_typed("glob", e["t"])
                    v = self.glob_init[r]
                st.vars[r] = v
            return LV(r)
        i = e["id"]
        if i not in st.vars:
            raise VCError("variable %s not in scope at line %s" % (e["n"], e["l"]))
        v = st.vars[i]
        if isinstance(v, LV):
            return v
        return LV(i)

    glob_init = None

    def deref(self, v, st, tkey, line):
        """lvalue of *v"""
        if isinstance(v, PyPtr):
            self.oblige(st, "non-null dereference", Not(v.isnull), "safety", line)
            if v.idx is not None:
                n = self.length_of(st, v.base)
                self.oblige(st, "pointer/iterator in bounds", And(v.idx >= 0, v.idx < n), "bounds", line)
                return v.base.ext(("v", v.idx))
            if v.base is None:
                raise VCError("null dereference")
            return v.base
        if isinstance(v, MapIt):
            self.oblige(st, "dereference of valid map iterator", Not(v.end), "safety", line)
            base = self.read(st, v.base)
            if is_set(base):
                return self.tmp(st, v.key)
            return v.base.ext(("mp", v.key))
        if z3.is_expr(v) and v.sort() == ptr_sort():
            es = self.u.sort(tkey)
            r = self.heap_root(st, tkey, es)
            blk, off = acc(v, "blk"), acc(v, "off")
            h = LV(r, (("ix", blk),))
            self.oblige(st, "pointer in bounds", And(blk != 0, off >= 0, off < vlen(self.read(st, h))), "bounds", line)
            return h.ext(("v", off))
        raise VCError("dereference of %r" % (v,))

    def length_of(self, st, lv):
        t = self.read(st, lv)
        return vlen(t)

    def ptr_add(self, v, n, st, tkey=None):
        if isinstance(v, PyPtr):
            if v.idx is None:
                # pointer to a single object / heap element
                if v.base is not None and v.base.path and v.base.path[-1][0] == "v":
                    p = v.base.path[-1]
                    return PyPtr(LV(v.base.root, v.base.path[:-1]), simp_num(p[1] + n), v.isnull)
                raise VCError("arithmetic on object pointer")
            return PyPtr(v.base, simp_num(v.idx + n), v.isnull)
        if z3.is_expr(v) and v.sort() == ptr_sort():
            return dtinfo(ptr_sort()).ctor(acc(v, "blk"), simp_num(acc(v, "off") + n))
        raise VCError("pointer arithmetic on %r" % (v,))

    def as_idxptr(self, v):
        if isinstance(v, PyPtr) and v.idx is None and v.base is not None and v.base.path and v.base.path[-1][0] == "v":
            return PyPtr(LV(v.base.root, v.base.path[:-1]), v.base.path[-1][1], v.isnull)
        return v

    def ptr_eq(self, a, b, st):
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return self.mapit_eq(a, b)
        if z3.is_expr(a) and isinstance(b, PyPtr) and b.base is None:
            return acc(a, "blk") == 0
        if z3.is_expr(b) and isinstance(a, PyPtr) and a.base is None:
            return acc(b, "blk") == 0
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        if isinstance(a, PyPtr) and isinstance(b, PyPtr):
            if b.base is None:
                return a.isnull
            if a.base is None:
                return b.isnull
            a, b = self.as_idxptr(a), self.as_idxptr(b)
            if a.idx is not None and b.idx is not None and a.base.same(b.base):
                return a.idx == b.idx
            if a.idx is None and b.idx is None and a.base.same(b.base):
                return TRUE
            if a.base.root != b.base.root:
                return FALSE
        # mixed heap pointers
        try:
            return self.storable(a) == self.storable(b)
        except VCError:
            raise VCError("pointer comparison")

    def mapit_eq(self, a, b):
        if a.keys is not None and b.keys is not None and a.keys.eq(b.keys):
            return a.idx == b.idx
        return And(a.end == b.end, Or(a.end, a.key == b.key)) if not (z3.is_true(b.end) or z3.is_true(a.end)) else \
            (a.end if z3.is_true(b.end) else b.end)

    def x_member(self, e, st):
        if e.get("arrow"):
            p = self.eval(e["b"], st)
            ptk = self.ty(e["b"])
            base = self.deref(p, st, ptk["to"], e["l"])
            bt = ptk["to"]
        else:
            base = self.lval(e["b"], st)
            bt = e["b"]["t"]
        return self.field(st, base, e["f"], e["cls"], bt)

    def field(self, st, base, f, cls, bt):
        if base.path and base.path[-1][0] == "mp":
            if f == "first":
                return self.tmp(st, base.path[-1][1])
            return LV(base.root, base.path[:-1] + (("m", base.path[-1][1]),))
        return base.ext(("f", f))

    def x_index(self, e, st):
        b = e["b"]
        i = self.eval(e["i"], st)
        p = self.eval(b, st)
        p = self.ptr_add(self.as_idxptr(p), i, st)
        return self.deref(p, st, e["t"], e["l"])

    def x_un(self, e, st):
        op = e["op"]
        if op == "*":
            p = self.eval(e["e"], st)
            return self.deref(p, st, e["t"], e["l"])
        if op == "&":
            x = e["e"]
            while x["k"] == "paren":
                x = x["e"]
            if x["k"] == "index":
                # &a[i]: a pointer, one past the end included; nothing is read
                i = self.eval(x["i"], st)
                p = self.ptr_add(self.as_idxptr(self.eval(x["b"], st)), i, st)
                if isinstance(p, PyPtr) and p.base is not None and p.idx is not None:
                    self.oblige(st, "address within the array", And(p.idx >= 0, p.idx <= self.length_of(st, p.base)), "bounds", e["l"])
                    return p
            lv = self.lval(e["e"], st)
            return self.as_idxptr(PyPtr(lv))
        v = self.eval(e["e"], st)
        if op == "!":
            return Not(v)
        if op == "-":
            if z3.is_int(v):
                r = -v
                return simp_num(self.wrap(r, e["t"])) if not self.ty(e)["s"] else simp_num(r)
            return -v
        if op == "+":
            return v
        if op == "~":
            lo, hi = self.int_range(e["t"])
            return -v - 1 if lo < 0 else hi - v
        raise VCError("unary " + op)

    def wrap(self, r, tkey):
        """exact modular wrap for unsigned results of + - unary-; mathematical for signed"""
        t = self.u.ty(tkey)
        if t["k"] != "int" or t["s"]:
            return r
        m = 2 ** t["w"]
        if z3.is_int_value(r):
            return I(r.as_long() % m)
        return If(r < 0, r + m, If(r >= m, r - m, r))

    def arith(self, op, a, b, tkey, st, line):
        t = self.u.ty(tkey)
        if z3.is_real(a) or z3.is_real(b):
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                r = a / b
                if self.u.opts.get("finite_quot"):      # the quotient as a function symbol, defined by a lemma of the contract file
                    r = z3.Function("quotient", z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)
                    self.trusted.add("infinity is some real number that no quotient reaches")
                    inf = z3.Real("m_infinity")
                    self.facts.append(z3.And(-inf < r, r < inf))
                return r
            raise VCError("float op " + op)
        if z3.is_bool(a):
            a = If(a, I(1), I(0))
        if z3.is_bool(b):
            b = If(b, I(1), I(0))
        if op in ("+", "-"):
            r = a + b if op == "+" else a - b
            r = simp_num(r)
            return simp_num(self.wrap1(op, r, t))
        if op == "*":
            r = simp_num(a * b)
            if not t["s"]:
                m = 2 ** t["w"]
                if z3.is_int_value(r):
                    return I(r.as_long() % m)
                return If(r >= m, r % m, r)
            return r
        if op in ("/", "%"):
            self.oblige(st, "division by zero", b != 0, "safety", line)
            if t["s"]:
                if z3.is_int_value(b) and b.as_long() > 0:
                    q = If(a >= 0, a / b, -((-a) / b))
                else:
                    q = If(a >= 0, a / b, -((-a) / b))
                if op == "/":
                    return simp_num(q)
                return simp_num(a - b * q) if not (z3.is_int_value(b)) else If(a >= 0, a % b, -((-a) % b))
            return simp_num(a / b) if op == "/" else simp_num(a % b)
        if op == "<<":
            if z3.is_int_value(b):
                r = a * (2 ** b.as_long())
            else:
                r = a * self.pow2(b)
            if not t["s"]:
                m = 2 ** t["w"]
                return simp_num(r % m)
            return simp_num(r)
        if op == ">>":
            d = I(2 ** b.as_long()) if z3.is_int_value(b) else self.pow2(b)
            return simp_num(a / d)
        if op in ("&", "|", "^"):
            return self.bitop(op, a, b, t)
        raise VCError("int op " + op)

    def pow2(self, b):
        self.lib_used.add("pow2")
        w = I(1)
        r = I(2 ** 63)
        for i in range(62, -1, -1):
            r = If(b == i, I(2 ** i), r)
        return r

    def wrap1(self, op, r, t):
        if t["k"] != "int" or t["s"]:
            return r
        m = 2 ** t["w"]
        if z3.is_int_value(r):
            return I(r.as_long() % m)
        if op == "+":
            return If(r >= m, r - m, r)
        return If(r < 0, r + m, r)

    def bitop(self, op, a, b, t):
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return I({"&": x & y, "|": x | y, "^": x ^ y}[op])
        if op == "&":
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b):
                m = b.as_long()
                if m >= 0 and (m & (m + 1)) == 0:
                    return a % (m + 1)
                # contiguous mask: (a div 2^lo mod 2^n) * 2^lo
                if m > 0:
                    lo = (m & -m).bit_length() - 1
                    mm = m >> lo
                    if (mm & (mm + 1)) == 0:
                        return ((a / (2 ** lo)) % (mm + 1)) * (2 ** lo)
        w = t["w"]
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
        return z3.BV2Int(r, t["s"])

    def x_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.eval(e["a"], st)
            s2 = st.fork(a if op == "&&" else Not(a))
            b = self.eval(e["b"], s2)
            self.join_side(st, s2, a if op == "&&" else Not(a))
            return And(a, b) if op == "&&" else Or(a, b)
        a = self.eval(e["a"], st)
        b = self.eval(e["b"], st)
        ta = self.ty(e["a"])
        tb = self.ty(e["b"])
        if ta["k"] in ("ptr", "nullptr") or tb["k"] in ("ptr", "nullptr"):
            return self.ptr_bin(op, a, b, e, st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e["t"], st, e["l"])

    def compare(self, op, a, b):
        if z3.is_bool(a) and z3.is_int(b):
            a = If(a, I(1), I(0))
        if z3.is_bool(b) and z3.is_int(a):
            b = If(b, I(1), I(0))
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return z3.BoolVal({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if op == "==":
            if z3.is_bool(a):
                if z3.is_true(b):
                    return a
                if z3.is_false(b):
                    return Not(a)
                if z3.is_true(a):
                    return b
                if z3.is_false(a):
                    return Not(b)
            return TRUE if a.eq(b) else a == b
        if op == "!=":
            return Not(self.compare("==", a, b))
        if z3.is_bool(a):
            a = If(a, I(1), I(0))
            b = If(b, I(1), I(0))
        return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()

    def ptr_bin(self, op, a, b, e, st):
        a, b = self.as_idxptr(a), self.as_idxptr(b)
        if op == "==":
            return self.ptr_eq(a, b, st)
        if op == "!=":
            return Not(self.ptr_eq(a, b, st))
        isp = lambda x: isinstance(x, (PyPtr, MapIt)) or (z3.is_expr(x) and x.sort() == ptr_sort())
        if op == "+":
            return self.ptr_add(a, b, st) if isp(a) else self.ptr_add(b, a, st)
        if op == "-":
            if not isp(b):
                return self.ptr_add(a, -b, st)
            return self.ptr_off(a, b, st)
        if op in ("<", ">", "<=", ">="):
            d = self.ptr_off(a, b, st)
            return {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[op]
        raise VCError("pointer op " + op)

    def ptr_off(self, a, b, st):
        if isinstance(a, PyPtr) and isinstance(b, PyPtr) and a.idx is not None and b.idx is not None and a.base.same(b.base):
            return simp_num(a.idx - b.idx)
        if z3.is_expr(a) and z3.is_expr(b):
            return simp_num(acc(a, "off") - acc(b, "off"))
        a, b = self.storable(a), self.storable(b)
        return simp_num(acc(a, "off") - acc(b, "off"))

    def join_side(self, st, s2, cond):
        """s2 = st.fork(cond) after evaluating an operand: merge side effects back into st"""
        ch = [k for k in s2.vars if k not in st.vars or st.vars[k] is not s2.vars[k]]
        for k in ch:
            if k not in st.vars:
                st.vars[k] = s2.vars[k]
            else:
                st.vars[k] = self.merge_val([(s2.reach, s2.vars[k]), (None, st.vars[k])], cond)

    def x_cond(self, e, st):
        c = self.eval(e["c"], st)
        if z3.is_true(c):
            return self.eval(e["a"], st) if not e.get("lv") else self.lval(e["a"], st)
        if z3.is_false(c):
            return self.eval(e["b"], st) if not e.get("lv") else self.lval(e["b"], st)
        s1, s2 = st.fork(c), st.fork(Not(c))
        void = self.ty(e)["k"] == "void"
        a = self.eval(e["a"], s1)
        b = self.eval(e["b"], s2)
        m = self.merge([s1, s2])
        if m is None:
            st.reach = FALSE
            return a
        st.vars, st.reach = m.vars, m.reach
        if void:
            return TRUE
        if z3.is_false(s1.reach):
            return b
        if z3.is_false(s2.reach):
            return a
        return self.merge_val([(c, a), (None, b)], c)

    def x_comma(self, e, st):
        self.eval_void(e["a"], st)
        return self.eval(e["b"], st)

    def eval_void(self, e, st):
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise VCError("unsupported expression %s (%s) at line %s" % (k, e.get("cls", ""), e.get("l")))
        m(e, st)

    def x_assign(self, e, st):
        v = self.eval(e["b"], st)
        lv = self.lval(e["a"], st)
        self.write(st, lv, v)
        return lv

    def x_opassign(self, e, st):
        v = self.eval(e["b"], st)
        lv = self.lval(e["a"], st)
        ta = self.ty(e["a"])
        cur = self.read_typed(st, lv, e["a"]["t"])
        if ta["k"] == "ptr":
            nv = self.ptr_add(self.as_idxptr(cur), v if e["op"] == "+" else -v, st)
        else:
            cl = self.conv(cur, e["a"]["t"], e["cl"])
            nv = self.arith(e["op"], cl, v, e["ct"], st, e["l"])
            nv = self.conv(nv, e["ct"], e["a"]["t"])
        self.write(st, lv, nv)
        return lv

    def x_incdec(self, e, st):
        lv = self.lval(e["e"], st)
        cur = self.read_typed(st, lv, e["e"]["t"])
        t = self.ty(e["e"])
        if t["k"] == "ptr":
            nv = self.ptr_add(self.as_idxptr(cur), I(1) if e["op"] == "++" else I(-1), st)
        elif t["k"] == "bool":
            nv = TRUE
        elif t["k"] == "float":
            nv = cur + 1 if e["op"] == "++" else cur - 1
        else:
            nv = self.arith("+" if e["op"] == "++" else "-", cur, I(1), e["e"]["t"], st, e["l"])
        self.write(st, lv, nv)
        return lv if e["prefix"] else cur

    def conv(self, v, frm, to):
        """arithmetic conversion"""
        if not z3.is_expr(v):
            return v
        tf, tt = self.u.ty(self.u.strip_ref(frm)), self.u.ty(self.u.strip_ref(to))
        if tt["k"] == "int":
            if z3.is_bool(v):
                return If(v, I(1), I(0))
            if z3.is_real(v):
                return z3.simplify(z3.ToInt(v)) if z3.is_rational_value(v) and v.as_fraction() >= 0 else If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            lo, hi = self.int_range(to)
            if tf["k"] == "int":
                flo, fhi = self.int_range(frm)
                if flo >= lo and fhi <= hi:
                    return v
                m = 2 ** tt["w"]
                if z3.is_int_value(v):
                    x = v.as_long() % m
                    if tt["s"] and x > hi:
                        x -= m
                    return I(x)
                if not tt["s"]:
                    if tf["s"] and tf["w"] <= tt["w"]:
                        return If(v < 0, v + m, v)
                    return v % m
                wrapped = ((v + m // 2) % m) - m // 2
                return If(And(v >= lo, v <= hi), v, wrapped)
            return v
        if tt["k"] == "float":
            if z3.is_bool(v):
                return If(v, z3.RealVal(1), z3.RealVal(0))
            if z3.is_int(v):
                return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
            return v
        if tt["k"] == "bool":
            if z3.is_int(v):
                return v != 0
            if z3.is_real(v):
                return v != 0
            return v
        return v

    def x_cast(self, e, st):
        ck = e["ck"]
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean",
                  "FloatingToBoolean", "BooleanToSignedIntegral"):
            v = self.eval(e["e"], st)
            return self.conv(v, e["e"]["t"], e["t"])
        if ck == "PointerToBoolean":
            v = self.eval(e["e"], st)
            if isinstance(v, PyPtr):
                return Not(v.isnull)
            return acc(v, "blk") != 0
        if ck == "ToVoid":
            self.eval_void(e["e"], st)
            return TRUE
        if ck == "NullToPointer":
            return PyPtr(None, None, TRUE)
        if ck == "ArrayToPointerDecay":
            lv = self.x_any(e["e"], st)
            if isinstance(lv, PyPtr):
                return lv
            return PyPtr(lv, I(0))
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return self.to_base(e, st)
        if ck == "BitCast" or ck == "LValueBitCast":
            r = self.raw_new(e, st)
            if r is not None:
                return r
            v = self.x_any(e["e"], st)
            return v
        if ck == "BaseToDerived":
            raise VCError("BaseToDerived cast")
        raise VCError("cast " + ck)

    def x_any(self, e, st):
        return getattr(self, "x_" + e["k"])(e, st) if hasattr(self, "x_" + e["k"]) else self.eval(e, st)

    def base_path(self, frm, to):
        """list of field accessors from record type `frm` to base `to`"""
        if frm == to:
            return []
        r = self.u.records.get(frm)
        if not r:
            return None
        for i, b in enumerate(r["bases"]):
            p = self.base_path(b, to)
            if p is not None:
                return [("f", "base$%d" % i)] + p
        return None

    def to_base(self, e, st):
        v = self.x_any(e["e"], st)
        if self.u.kind(e["e"]["t"]) == "iter":
            return v
        tf, tt = self.ty(e["e"]), self.ty(e)
        if tt["k"] == "ptr":
            p = self.base_path(tf["to"], tt["to"])
            if isinstance(v, LV):
                v = self.read(st, v)
            if p is None:
                return v
            if isinstance(v, PyPtr) and v.idx is None and v.base is not None:
                return PyPtr(v.base.ext(*p), None, v.isnull)
            return v
        p = self.base_path(self.u.strip_ref(e["e"]["t"]), self.u.strip_ref(e["t"]))
        if isinstance(v, LV):
            return v if p is None else v.ext(*p)
        if p is None:
            return v
        lv = self.tmp(st, v)
        return lv.ext(*p)

    def x_initlist(self, e, st):
        t = self.ty(e)
        if t["k"] == "array":
            d = dtinfo(self.u.sort(e["t"]))
            a = acc(self.default_value(st, e["t"], zero=True), "arr")
            for i, x in enumerate(e["args"]):
                a = z3.Store(a, i, self.storable(self.eval(x, st)))
            return d.ctor(I(t["n"]), a)
        if t["k"] == "rec":
            if t["name"] == "std::initializer_list":
                raise VCError("initializer_list")
            d = dtinfo(self.u.sort(e["t"]))
            vals = [self.eval(x, st) for x in e["args"]]
            if len(vals) == len(d.fields):
                return d.ctor(*[self.storable(v) for v in vals])
            if not vals:
                return self.default_value(st, e["t"], zero=True)
            raise VCError("aggregate init")
        if len(e["args"]) == 1:
            return self.eval(e["args"][0], st)
        if not e["args"]:
            return self.default_value(st, e["t"], zero=True)
        raise VCError("initlist")

    def x_throw(self, e, st):
        st.reach = FALSE
        return TRUE

    def x_lambda(self, e, st):
        return Lam(e, self.frames[-1])

    def x_fnref(self, e, st):
        return FnRef(e["fn"])

    def x_new(self, e, st):
        if e.get("place"):
            # placement new of one plain object: an assignment to the object at that place
            if e["array"] or len(e["place"]) != 1:
                raise VCError("placement new")
            pl = e["place"][0]
            while pl["k"] in ("cast", "paren"):
                pl = pl["e"]
            p = self.eval(pl, st)
            lv = self.deref(p, st, e["at"], e["l"])
            self.write(st, lv, self.eval(e["init"], st) if e.get("init") else self.default_value(st, e["at"]))
            return p
        es = self.u.sort(e["at"])
        r = self.heap_root(st, e["at"], es)
        blk = self.alloc(st)
        d = dtinfo(vec_sort(es))
        if e["array"]:
            n = self.eval(e["n"], st)
            ini = e.get("init")
            if self.u.kind(e["at"]) in ("rec", "vec", "map", "set"):
                ev = self.construct_default(e["at"], st, ini)
                val = d.ctor(n, z3.K(z3.IntSort(), ev))
            elif ini is not None and ini["k"] in ("zeroinit", "initlist"):
                val = d.ctor(n, z3.K(z3.IntSort(), self.default_value(st, e["at"], zero=True)))
            else:
                val = d.ctor(n, self.fresh("newarr", d.acc[1].range()))
        else:
            if e.get("init"):
                v = self.eval(e["init"], st)
            else:
                v = self.default_value(st, e["at"])
            val = d.ctor(I(1), z3.Store(self.fresh("newobj", d.acc[1].range()), 0, self.storable(v)))
        h = st.vars[r] if r in st.vars else self.heap_init[r]
        st.vars[r] = z3.Store(h, blk, val)
        return dtinfo(ptr_sort()).ctor(blk, I(0))

    def raw_new(self, e, st):
        """(T*)::operator new(bytes): a block of bytes/sizeof(T) uninitialised elements"""
        c = e["e"]
        while c["k"] in ("paren", "cleanups"):
            c = c["e"]
        if c["k"] != "call" or c["fn"].get("q") not in ("operator new", "operator new[]") or len(c["args"]) != 1:
            return None
        t = self.ty(e)
        if t["k"] != "ptr":
            return None
        el = self.u.ty(t["to"])
        size = el.get("w", 0) // 8 if el["k"] == "int" else None
        if not size:
            raise VCError("operator new of elements of unknown size")
        es = self.u.sort(t["to"])
        n = z3.simplify(self.eval(c["args"][0], st) / size)
        r = self.heap_root(st, t["to"], es)
        blk = self.alloc(st)
        d = dtinfo(vec_sort(es))
        st.vars[r] = z3.Store(st.vars[r], blk, d.ctor(n, self.fresh("raw", d.acc[1].range())))
        return dtinfo(ptr_sort()).ctor(blk, I(0))

    def construct_default(self, tkey, st, ini=None):
        if ini is not None and ini["k"] == "construct":
            t = self.ty(ini)
            if t["k"] == "array":
                ini = dict(ini)
                ini["t"] = tkey
            return self.eval(ini, st)
        return self.default_value(st, tkey)

    def alloc_term(self, st):
        r = ("glob", "$alloc")
        if r not in st.vars:
            if r not in self.glob_init:
                t = self.fresh("alloc", z3.IntSort())
                self.facts.append(t > 0)
                self.glob_init[r] = t
            st.vars[r] = self.glob_init[r]
        return st.vars[r]

    def alloc(self, st):
        """a fresh non-null block: block numbers below the allocation counter are in use"""
        b = self.alloc_term(st)
        st.vars[("glob", "$alloc")] = b + 1
        return b

    def x_delete(self, e, st):
        v = self.eval(e["e"], st)
        if self.u.opts.get("delete") and z3.is_expr(v) and v.sort() == ptr_sort():
            # releases a whole block: from here on it has no elements
            t = self.ty(e["e"])
            es = self.u.sort(t["to"])
            r = self.heap_root(st, t["to"], es)
            d = dtinfo(vec_sort(es))
            h = st.vars[r]
            b = acc(v, "blk")
            self.oblige(st, "delete of a whole block in use", Or(b == 0, And(acc(v, "off") == 0, b > 0, b < self.alloc_term(st))), "bounds", e["l"])
            dead = d.ctor(I(0), self.fresh("freed", d.acc[1].range()))
            st.vars[r] = If(b == 0, h, z3.Store(h, b, dead))
            return TRUE
        self.lib_used.add("delete (memory release and destructor not modelled)")
        return TRUE

    # -- calls ---------------------------------------------------------------
    def x_construct(self, e, st):
        fn = e["fn"]
        args = e["args"]
        tkey = self.u.strip_ref(e["t"])
        ty = self.u.ty(tkey)
        if fn.get("copyctor") and len(args) >= 1 and (fn.get("implicit") or self.u.kind(tkey) != "rec" or "id" not in fn):
            return self.eval(args[0], st)
        k = self.u.kind(tkey)
        if self.is_opaque(tkey) and (fn.get("copyctor") and args or not args):
            self.trusted.add("%s is copied as a value" % ty.get("name", tkey))
            if args:
                return self.eval(args[0], st)
            return z3.Const("default$%s" % self.u.sort(tkey), self.u.sort(tkey))
        if ty["k"] == "array":
            ek = ty["to"]
            e2 = dict(e)
            e2["t"] = ek
            ev = self.eval(e2, st)
            d = dtinfo(self.u.sort(tkey))
            return d.ctor(I(ty["n"]), z3.K(z3.IntSort(), ev))
        h = self.stl.ctor(self, fn, tkey, args, e, st)
        if h is not None:
            return h
        if str(fn.get("id", "")) in self.u.functions and "body" in self.u.functions[str(fn["id"])] or self.find_contract(fn) is not None:
            self_lv = self.tmp(st, None)
            st.vars[self_lv.root] = self.default_value(st, tkey, zero=e.get("zero", False), raw=True)
            self.call_fn(fn, self_lv, args, e, st, ctor=True)
            v = st.vars.get(self_lv.root)
            return v
        if fn.get("defctor") and (fn.get("implicit") or dtinfo(self.u.sort(tkey)) is None or not args):
            return self.default_value(st, tkey, zero=e.get("zero", False))
        if fn.get("copyctor"):
            return self.eval(args[0], st)
        raise VCError("constructor %s without model at line %s" % (fn["q"], e["l"]))

    def is_opaque(self, tkey):
        return tkey in self.u.opts["opaque"] or self.u.ty(tkey).get("name") in self.u.opts["opaque"]

    def x_icall(self, e, st):
        raise VCError("indirect call at line %s" % e["l"])

    def x_call(self, e, st):
        fn = e["fn"]
        if fn.get("noret"):
            if fn["q"] == "__assert_fail" and not self.opts.get("assume_asserts"):
                self.oblige(st, "assertion at line %s" % e["l"], FALSE, "assert", e["l"])
            st.reach = FALSE
            return TRUE
        # user contracts may override anything, including library functions
        c = self.find_contract(fn)
        if c is None or c.inline:
            r = self.stl.call(self, fn, e, st)
            if r is not NotImplemented:
                self.lib_used.add(fn["q"])
                return r
        obj = None
        if "obj" in e:
            if e.get("objptr"):
                p = self.eval(e["obj"], st)
                obj = self.deref(p, st, self.ty(e["obj"])["to"], e["l"])
                bt = self.ty(e["obj"])["to"]
            else:
                obj = self.lval(e["obj"], st)
                bt = self.u.strip_ref(e["obj"]["t"])
            if fn.get("copyassign") and self.is_opaque(bt):
                self.trusted.add("%s is copied as a value" % self.u.ty(bt).get("name", bt))
                v = self.eval(e["args"][0], st)
                self.write(st, obj, v)
                return obj
            if fn.get("copyassign") and (fn.get("implicit") or "id" not in fn):
                v = self.eval(e["args"][0], st)
                self.write(st, obj, v)
                return obj
        return self.call_fn(fn, obj, e["args"], e, st)

    opts = {}

    def find_contract(self, fn):
        cs = self.contracts.get(fn["q"])
        if not cs:
            return None
        for c in cs:
            if self.match_sig(c, fn):
                return c
        return None

    def match_sig(self, c, fn):
        if c.sig is None:
            return True
        if callable(c.sig):
            return c.sig(fn)
        return list(c.sig) == list(fn["pt"])

    def call_fn(self, fn, obj, args, e, st, ctor=False):
        c = self.find_contract(fn)
        root = getattr(self.frames[0], "contract", None)
        if root is not None and fn["q"] in root.opts.get("at_call", {}):
            env = self.spec_env(st, self.old_state)
            for nm, x in root.opts["at_call"][fn["q"]]:
                try:
                    g = env.boolean(x)
                except SpecError as ex:
                    self.spec_errors.append(str(ex))
                    g, nm = FALSE, nm + " [unevaluable: %s]" % ex
                self.oblige(st, "%s at call of %s" % (nm, fn["q"]), g, "at-call", e["l"])
                self.assume(st, g)
        if c is not None and not c.inline:
            return self.apply_contract(c, fn, obj, args, e, st, ctor)
        fid = str(fn.get("id", ""))
        if fid in self.u.functions and "body" in self.u.functions[fid]:
            return self.inline(self.u.functions[fid], obj, args, e, st, ctor)
        if fn["q"].startswith("std::chrono::") or fn["q"] in ("clock", "time"):
            return self.fresh("clock", self.u.sort(self.u.strip_ref(e["t"])))   # the time of day: any value
        raise VCError("call to %s at line %s has neither contract, model nor body" % (fn["q"], e["l"]))

    def bind_args(self, pts, args, st):
        out = []
        for i, pt in enumerate(pts):
            a = args[i]
            t = self.u.ty(pt)
            if t["k"] == "ref":
                v = self.x_any(a, st)
                if not isinstance(v, LV):
                    v = self.tmp(st, v)
                out.append(v)
            else:
                out.append(self.eval(a, st))
        return out

    def inline(self, f, obj, args, e, st, ctor=False):
        if f["fid"] in self.inline_stack:
            raise VCError("recursive call to %s needs a contract" % f["q"])
        if len(self.inline_stack) > 24:
            raise VCError("inlining too deep at " + f["q"])
        vals = self.bind_args(f["pt"], args, st)
        self.inlined.add(f["q"])
        fr = Frame(f, obj)
        self.frames.append(fr)
        self.inline_stack.append(f["fid"])
        saved = {}
        try:
            for p, v in zip(f["params"], vals):
                st.vars[p["id"]] = v
                fr.names.setdefault(p["n"], []).append(p["id"])
            k = K()
            if ctor:
                self.ctor_inits(f, st)
            end = self.exec(f["body"], st, k) if "body" in f else st
            if k.gotos:
                raise VCError("goto %s: only forward jumps to a label of an enclosing block" % sorted(k.gotos))
            rt = self.u.ty(f["ret"])
            if end is not None and (rt["k"] == "void" or ctor):
                k.ret.append((end, None))
            return self.join_returns(k.ret, st, rt)
        finally:
            self.inline_stack.pop()
            self.frames.pop()

    def join_returns(self, rets, st, rt):
        rets = [(s, v) for s, v in rets if not z3.is_false(s.reach)]
        if not rets:
            st.reach = FALSE
            if rt["k"] == "void":
                return TRUE
            if rt["k"] == "ref":
                s = self.u.sort(rt["to"])
                return self.tmp(st, self.fresh("dead", s))
            key = None
            return self.fresh("dead", self.sort_of_ty(rt))
        m = self.merge([s for s, _ in rets])
        st.vars, st.reach = m.vars, m.reach
        if rets[0][1] is None:
            return TRUE
        if len(rets) == 1:
            return rets[0][1]
        return self.merge_val([(s.reach, v) for s, v in rets])

    def sort_of_ty(self, t):
        for k, v in self.u.types.items():
            if v is t:
                return self.u.sort(k)
        raise VCError("type")

    def ctor_inits(self, f, st):
        this = self.frames[-1].this
        for i in f.get("inits", []):
            if "f" in i:
                lv = this.ext(("f", i["f"]))
            elif "chain" in i:
                lv = this.ext(*[("f", x) for x in i["chain"]])
            elif "base" in i:
                p = self.base_path(f["cls"], i["base"])
                if p is None:
                    continue
                lv = this.ext(*p)
            else:
                # delegating constructor
                ee = i["e"]
                self.call_fn(ee["fn"], this, ee["args"], ee, st, ctor=True)
                continue
            d = dtinfo(self.read(st, LV(lv.root, lv.path[:-1])).sort())
            if d is None:
                continue
            if lv.path[-1][1] not in d.ix:
                continue
            srt = d.acc[d.ix[lv.path[-1][1]]].range()
            ee = i["e"]
            if ee["k"] == "construct" and ee["fn"].get("q") and "id" in ee["fn"] and "base" in i and dtinfo(srt) is not None \
                    and not (ee["fn"].get("copyctor")):
                self.call_fn(ee["fn"], lv, ee["args"], ee, st, ctor=True)
                continue
            isref = False
            try:
                v = self.x_any(ee, st)
                if isinstance(v, LV):
                    v = self.read_typed(st, v, ee["t"])
                v = self.link(self.storable(v), srt)
            except VCError:
                if srt.kind() == z3.Z3_UNINTERPRETED_SORT:
                    continue
                raise
            if v.sort() != srt:
                if srt.kind() == z3.Z3_UNINTERPRETED_SORT:
                    continue
                raise VCError("constructor initialiser sort mismatch for %s" % lv)
            self.write(st, lv, v)

    # contract use at a call site
    def apply_contract(self, c, fn, obj, args, e, st, ctor=False):
        vals = self.bind_args(fn["pt"], args, st)
        self.callees.add(c.q)
        pre = st.fork()
        names = {}
        pn = c.params or ["p%d" % i for i in range(len(vals))]
        for k_, (n, v) in enumerate(zip(pn, vals)):
            if n in c.opts.get("objptr", ()):
                v = vals[k_] = self.deref(v, st, self.u.ty(fn["pt"][k_])["to"], e["l"])
            elif n in c.opts.get("vecptr", ()):
                if not isinstance(v, PyPtr):
                    raise VCError("argument %s of %s is not a pointer into a known array" % (n, c.q))
                v = self.as_idxptr(v)
                names[n + "_off"] = v.idx
                v = vals[k_] = v.base
            names[n] = v
        self.check_alias(c, pn, vals, obj, fn, st, e)

        def look(name, which):
            s = pre if which in ("old", "entry") else st
            if name == "result":
                return res[0]
            if name in names:
                v = names[name]
                if isinstance(v, LV):
                    return self.read(s, v)
                return v
            if name == "this":
                return self.read(s, obj)
            if name in c.ghosts:
                return self.ghost(c, name)
            if obj is not None:
                t = self.read(s, obj)
                d = dtinfo(t.sort())
                if d is not None and name in d.ix:
                    return acc(t, name)
            if name.startswith("HEAP_") or name == "ALLOC":
                return self.heap_term(s, name)
            raise SpecError("name %s in contract of %s" % (name, c.q))

        res = [None]
        env = self.mkenv(look)
        for nm, r in c.requires:
            g = env.boolean(r)
            self.oblige(st, "precondition %s of %s" % (nm, c.q), g, "call-pre", e["l"])
            self.assume(st, g)
        # frame
        for m in c.modifies:
            self.havoc_named(m, names, obj, st)
        rt = self.u.ty(fn["ret"])
        if ctor:
            res[0] = None
        elif c.returns_lv:
            res[0] = None
            out = self.spec_lv(c.returns_lv, names, obj, st, look)
        elif rt["k"] == "void":
            out = TRUE
        else:
            s = self.u.sort(fn["ret"])
            out = self.fresh("ret_" + sname(fn["q"].split("::")[-1]), s)
            for f in self.type_facts(out, fn["ret"]):
                self.facts.append(f)
            res[0] = out
        for nm, q in c.ensures:
            self.assume(st, env.boolean(q))
        if ctor:
            return TRUE
        if rt["k"] == "ref" and not isinstance(out, LV):
            out = self.tmp(st, out)
        return out

    def check_alias(self, c, pn, vals, obj, fn, st, e):
        mods = [m for m in c.modifies]
        lvs = []
        for n, v, pt in zip(pn, vals, fn["pt"]):
            if isinstance(v, LV):
                lvs.append((n, self.resolve(st, v)))
        modset = {m for m in mods}
        for i, (n, v) in enumerate(lvs):
            for n2, w in lvs[i + 1:]:
                if (n in modset or n2 in modset) and v.root == w.root:
                    # must be provably disjoint
                    g = self.disjoint(v, w)
                    self.oblige(st, "no aliasing of %s and %s in call to %s" % (n, n2, c.q), g, "alias", e["l"])
            if obj is not None and any(m == "this" or m.startswith("this.") for m in mods) or (obj is not None and n in modset):
                o = self.resolve(st, obj)
                if v.root == o.root:
                    fields = [m.split(".")[1] for m in mods if m.startswith("this.")]
                    if n not in modset and fields and len(v.path) > len(o.path) and v.path[len(o.path)][0] == "f" and \
                            v.path[len(o.path)][1] not in fields and "this" not in mods:
                        continue
                    g = self.disjoint(v, o)
                    self.oblige(st, "no aliasing of %s and *this in call to %s" % (n, c.q), g, "alias", e["l"])

    def resolve(self, st, lv):
        while isinstance(st.vars.get(lv.root), LV):
            b = st.vars[lv.root]
            lv = LV(b.root, b.path + lv.path)
        return lv

    def disjoint(self, v, w):
        conds = []
        for a, b in zip(v.path, w.path):
            if a[0] != b[0]:
                return FALSE
            if a[0] == "f":
                if a[1] != b[1]:
                    return TRUE if not conds else TRUE
            elif len(a) > 1:
                conds.append(a[1] != b[1])
        return Or(*conds) if conds else FALSE

    def ghost(self, c, name):
        key = (c.q, name)
        if key not in self.ghosts:
            self.ghosts[key] = c.ghosts[name](self)
        return self.ghosts[key]

    ghosts = None

    def spec_lv(self, path, names, obj, st, look=None):
        import ast
        n = SP.parse(path)

        def go(n):
            if isinstance(n, ast.Name):
                if n.id == "this":
                    return obj
                v = names.get(n.id)
                if isinstance(v, LV):
                    return v
                if isinstance(v, PyPtr):
                    return self.as_idxptr(v).base
                if obj is not None:
                    t = self.read(st, obj)
                    d = dtinfo(t.sort())
                    if d is not None and n.id in d.ix:
                        return obj.ext(("f", n.id))
                raise SpecError("lvalue " + path)
            if isinstance(n, ast.Attribute):
                b = go(n.value)
                return b.ext(("f", n.attr))
            if isinstance(n, ast.Subscript):
                b = go(n.value)
                env = self.mkenv(look)
                i = lift(env.e(n.slice))
                t = self.read(st, b)
                if is_map(t):
                    return b.ext(("m", i))
                return b.ext(("v", i))
            if isinstance(n, ast.Call):
                if n.func.id == "sp":
                    return go(n.args[0]).ext(("sp",))
                if n.func.id == "heapof":
                    pass
            raise SpecError("lvalue " + path)
        return go(n)

    def havoc_named(self, m, names, obj, st):
        if m.startswith("heap:"):
            es = self.heap_sorts(m[5:])
            r = self.heap_root(st, None, es)
            st.vars[r] = self.fresh("heap", st.vars[r].sort())
            b = z3.FreshConst(z3.IntSort(), "b")
            h = st.vars[r]
            self.facts.append(z3.ForAll([b], z3.And(vlen(z3.Select(h, b)) >= 0, vlen(z3.Select(h, b)) <= self.MAXLEN), patterns=[z3.Select(h, b)]))
            a0 = self.alloc_term(st)      # the callee may have allocated
            a1 = self.fresh("alloc", z3.IntSort())
            self.facts.append(a1 >= a0)
            st.vars[("glob", "$alloc")] = a1
            return
        if m.startswith("glob:"):
            r = ("glob", m[5:])
            if r in st.vars:
                st.vars[r] = self.fresh("glob", st.vars[r].sort())
            elif r in self.glob_init:
                st.vars[r] = self.fresh("glob", self.glob_init[r].sort())
            return
        if m == "result":
            return
        part = None
        if m.startswith("elems:"):
            m, part = m[6:], "arr"
        lv = self.spec_lv(m, names, obj, st, None)
        cur = self.read(st, lv)
        if not z3.is_expr(cur):
            return
        if part:
            d = dtinfo(cur.sort())
            self.write(st, lv, d.ctor(acc(cur, "len"), self.fresh("hv", d.acc[1].range())))
            return
        self.write(st, lv, self.fresh("hv_" + sname(m), cur.sort()))

    def heap_sorts(self, tkey):
        return self.u.sort(HEAPNAMES.get(tkey, tkey))

    def mkenv(self, look):
        e = Env(look, sortof=lambda k: self.u.sort(k))
        e.namer = self.name_term
        return e

    def name_term(self, t):
        c = self.named.get(t.get_id())
        if c is not None and c[2] < len(self.facts) and self.facts[c[2]] is c[3]:
            return c[1]
        n = c[1] if c is not None else z3.FreshConst(t.sort(), "nm")
        f = n == t
        self.named[t.get_id()] = (t, n, len(self.facts), f)
        self.facts.append(f)
        if z3.is_store(t) and t.sort().domain() == z3.IntSort():
            a, i, v = t.children()
            if z3.is_store(a) or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE):
                a = self.name_term(a)
            x = z3.FreshConst(z3.IntSort(), "x")
            try:
                self.facts.append(z3.ForAll([x], z3.Select(n, x) == z3.If(x == i, v, z3.Select(a, x)), patterns=[z3.Select(a, x)]))
            except z3.Z3Exception:
                pass
        return n

    # -- statements --------------------------------------------------------------
    def exec(self, s, st, k):
        if st is None or z3.is_false(st.reach):
            return None
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise VCError("unsupported statement %s at line %s" % (s["k"], s.get("l")))
        r = m(s, st, k)
        if r is not None and z3.is_false(r.reach):
            return None
        return r

    def s_block(self, s, st, k):
        for b in s["b"]:
            if b["k"] == "label" and k.gotos.get(b["n"]):
                st = self.merge([st] + k.gotos.pop(b["n"]))
            st = self.exec(b, st, k)
        return st

    def s_goto(self, s, st, k):
        k.gotos.setdefault(s["n"], []).append(st)
        return None

    def s_null(self, s, st, k):
        return st

    def s_label(self, s, st, k):
        return self.exec(s["s"], st, k)

    def s_expr(self, s, st, k):
        self.eval_void(s["e"], st)
        return st

    def declare(self, v, st):
        fr = self.frames[-1]
        fr.names.setdefault(v["n"], [])
        if v["id"] not in fr.names[v["n"]]:
            fr.names[v["n"]].append(v["id"])
        if v.get("static") and not v.get("const"):
            raise VCError("static local " + v["n"])
        if "init" in v:
            if v["ref"] or self.u.kind(v["t"]) == "bitref":
                x = self.x_any(v["init"], st)
                if not isinstance(x, LV):
                    x = self.tmp(st, x)
                st.vars[v["id"]] = x
            else:
                st.vars[v["id"]] = self.eval(v["init"], st)
        else:
            st.vars[v["id"]] = self.default_value(st, v["t"])
        if v["id"] in self.heapvecs:
            # addresses of this vector's elements are stored: its elements live in a block of their own
            x = st.vars[v["id"]]
            if not (z3.is_expr(x) and is_vec(x)):
                raise VCError("pointer to local stored in memory")
            b = self.alloc(st)
            r = self.heap_root(st, None, dtinfo(x.sort()).acc[1].range().range())
            st.vars[r] = z3.Store(st.vars[r], b, x)
            self.redirect[v["id"]] = st.vars[v["id"]] = LV(r, (("ix", b),))

    def s_decl(self, s, st, k):
        for v in s["v"]:
            self.declare(v, st)
        return st

    def s_if(self, s, st, k):
        if s.get("init"):
            st = self.exec(s["init"], st, k)
        if s.get("cv"):
            self.declare(s["cv"], st)
        c = self.eval(s["c"], st)
        if z3.is_false(st.reach):
            return None
        if z3.is_true(c):
            return self.exec(s["a"], st, k)
        if z3.is_false(c):
            return self.exec(s["b"], st, k) if s.get("b") else st
        s1, s2 = st.fork(c), st.fork(Not(c))
        r1 = self.exec(s["a"], s1, k)
        r2 = self.exec(s["b"], s2, k) if s.get("b") else s2
        return self.merge([r1, r2])

    def s_return(self, s, st, k):
        v = None
        if s.get("e"):
            f = self.frames[-1].fn
            rt = self.u.ty(f["ret"])
            if rt["k"] == "ref":
                v = self.x_any(s["e"], st)
                if not isinstance(v, LV):
                    v = self.tmp(st, v)
            elif rt["k"] == "void":
                self.eval_void(s["e"], st)
            else:
                v = self.eval(s["e"], st)
        if not z3.is_false(st.reach):
            k.ret.append((st, v))
        return None

    def s_break(self, s, st, k):
        k.brk.append(st)
        return None

    def s_continue(self, s, st, k):
        k.cont.append(st)
        return None

    def s_switch(self, s, st, k):
        c = self.eval(s["c"], st)
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        k2 = K()
        k2.ret, k2.cont, k2.gotos = k.ret, k.cont, k.gotos
        cur = None
        taken = FALSE
        # collect labels
        labels = []

        def flat(stm):
            ls = []
            while stm["k"] in ("case", "default"):
                ls.append(int(stm["v"]) if stm["k"] == "case" else None)
                stm = stm["s"]
            return ls, stm
        items = [flat(b) for b in body]
        allv = [v for ls, _ in items for v in ls if v is not None]
        for ls, stm in items:
            if ls:
                conds = []
                for v in ls:
                    if v is None:
                        conds.append(And(*[Not(c == x) for x in allv]))
                    else:
                        conds.append(c == v)
                entry = st.fork(Or(*conds))
                cur = self.merge([cur, entry])
            cur = self.exec(stm, cur, k2) if cur is not None else None
        outs = [cur] + k2.brk
        if not any(v is None for ls, _ in items for v in ls):
            outs.append(st.fork(And(*[Not(c == x) for x in allv])))
        return self.merge(outs)

    # -- merging -------------------------------------------------------------------
    def merge(self, states):
        states = [s for s in states if s is not None and not z3.is_false(s.reach)]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        r = Or(*[s.reach for s in states])
        if not z3.is_true(r):
            rk = z3.FreshConst(z3.BoolSort(), "r")
            self.facts.append(rk == r)
        else:
            rk = r
        out = {}
        for s in states:        # memory first touched on one of the paths still has its initial contents on the others
            for key in s.vars:
                if isinstance(key, tuple) and key[0] in ("heap", "glob"):
                    ini = (self.heap_init if key[0] == "heap" else self.glob_init).get(key)
                    if ini is not None:
                        for s2 in states:
                            s2.vars.setdefault(key, ini)
        for key in states[0].vars:
            if not all(key in s.vars for s in states):
                continue
            try:
                out[key] = self.merge_val([(s.reach, s.vars[key]) for s in states])
            except VCError:
                out[key] = None
        return St(out, rk)

    def merge_val(self, items, cond=None):
        """items: [(guard, value)] mutually exclusive; the last guard may be None (else)"""
        vs = [v for _, v in items]
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if any(v is None for v in vs):
            return None
        if all(z3.is_expr(v) for v in vs):
            if all(v.eq(v0) for v in vs):
                return v0
            if cond is not None:
                items = [(cond, items[0][1])] + items[1:]
            return self.merge_terms(items)
        if all(isinstance(v, LV) for v in vs):
            if all(v.same(v0) for v in vs):
                return v0
            # same shape, differing indices
            if all(v.root == v0.root and len(v.path) == len(v0.path) and all(a[0] == b[0] for a, b in zip(v.path, v0.path)) for v in vs):
                path = []
                for i in range(len(v0.path)):
                    ps = [v.path[i] for v in vs]
                    if ps[0][0] == "f":
                        if any(p[1] != ps[0][1] for p in ps):
                            raise VCError("merging references")
                        path.append(ps[0])
                    elif len(ps[0]) == 2:
                        path.append((ps[0][0], self.merge_val([(g, p[1]) for (g, _), p in zip(items, ps)], cond)))
                    else:
                        path.append(ps[0])
                return LV(v0.root, path)
            raise VCError("merging references")
        if all(isinstance(v, (PyPtr,)) or z3.is_expr(v) for v in vs):
            if all(isinstance(v, PyPtr) for v in vs):
                vs = [self.as_idxptr(v) for v in vs]
                bases = [v.base for v in vs if v.base is not None]
                if bases and all(b.same(bases[0]) for b in bases):
                    idxs = [v.idx for v in vs if v.base is not None]
                    if all(i is None for i in idxs) or all(i is not None for i in idxs):
                        isnull = self.merge_val([(g, v.isnull) for (g, _), v in zip(items, vs)], cond)
                        if idxs[0] is None:
                            return PyPtr(bases[0], None, isnull)
                        idx = self.merge_val([(g, v.idx if v.idx is not None else I(0)) for (g, _), v in zip(items, vs)], cond)
                        return PyPtr(bases[0], idx, isnull)
            return self.merge_val([(g, self.storable(v)) for (g, _), v in zip(items, vs)], cond)
        if all(isinstance(v, MapIt) for v in vs):
            if all(v.base.same(v0.base) for v in vs):
                mg = lambda f: self.merge_val([(g, f(v)) for g, v in items], cond)
                keys = v0.keys if all((v.keys is None) == (v0.keys is None) and (v.keys is None or v.keys.eq(v0.keys)) for v in vs) else None
                return MapIt(v0.base, mg(lambda v: v.key), mg(lambda v: v.end), keys,
                             mg(lambda v: v.idx) if keys is not None else None)
        raise VCError("cannot merge values")

    def merge_terms(self, items):
        v0 = items[0][1]
        s = v0.sort()
        d = dtinfo(s)
        if d is not None:
            parts = []
            for f in d.fields:
                parts.append(self.merge_terms([(g, acc(v, f)) for g, v in items]))
            if all(z3.is_app(p) and p.decl().eq(a) and p.arg(0).eq(parts[0].arg(0) if parts[0].num_args() else p) for p, a in zip(parts, d.acc)):
                return parts[0].arg(0)
            return d.ctor(*parts)
        if all(v.eq(v0) for _, v in items):
            return v0
        if z3.is_array(v0) and not any(g is None for g, _ in items):
            a = z3.FreshConst(s, "join")
            for g, v in items:
                self.facts.append(z3.Implies(g, a == v))
            return a
        r = items[-1][1]
        for g, v in reversed(items[:-1]):
            r = If(g, v, r)
        return r

    # -- loops -----------------------------------------------------------------------
    def diff(self, a, b):
        """shape of change from term a to term b: None, 'all' or {field: shape}"""
        if a is b:
            return None
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b):
                return None
            if a.sort() != b.sort():
                return "all"
            d = dtinfo(a.sort())
            if d is None:
                return "all"
            out = {}
            for f in d.fields:
                x = self.diff(acc(a, f), acc(b, f))
                if x is not None:
                    out[f] = x
            return out or None
        if isinstance(a, PyPtr) and isinstance(b, PyPtr):
            a, b = self.as_idxptr(a), self.as_idxptr(b)
            if a.base is not None and b.base is not None and a.base.same(b.base):
                if a.idx is None and b.idx is None:
                    return None
                if a.idx is not None and b.idx is not None:
                    return None if a.idx.eq(b.idx) and a.isnull.eq(b.isnull) else "ptr"
            if a.base is None and b.base is None:
                return None
            if a.base is None and b.idx is not None and not (isinstance(b.base.root, tuple) and b.base.root[0] == "heap"):
                return PtrTo(b.base)     # null so far, may now point into b.base
            if b.base is None and a.idx is not None:
                return "ptr"
            return "all"
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            if a.base.same(b.base) and a.keys is not None and b.keys is not None and a.keys.eq(b.keys):
                return None if a.idx.eq(b.idx) else "mapit"
            return "all"
        if isinstance(a, LV) and isinstance(b, LV):
            return None if a.same(b) else "all"
        if isinstance(a, (Lam, FnRef)) or isinstance(b, (Lam, FnRef)):
            return None if a is b else "all"
        return "all"

    def join_shape(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, PtrTo) and (b == "ptr" or isinstance(b, PtrTo) and a.base.same(b.base)):
            return a
        if isinstance(b, PtrTo) and a == "ptr":
            return b
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            return "all"
        if a == "all" or b == "all":
            return "all"
        if isinstance(a, str) or isinstance(b, str):
            return a if a == b else "all"
        out = dict(a)
        for k, v in b.items():
            out[k] = self.join_shape(out.get(k), v)
        return out

    def havoc_shape(self, v, shape, name):
        if shape is None:
            return v
        if isinstance(v, PyPtr):
            v = self.as_idxptr(v)
            if isinstance(shape, PtrTo):
                return PyPtr(shape.base, self.fresh(name, z3.IntSort()), self.fresh(name + "_null", z3.BoolSort()))
            if shape == "ptr" and v.idx is not None:
                return PyPtr(v.base, self.fresh(name, z3.IntSort()), self.fresh(name + "_null", z3.BoolSort()) if not z3.is_false(v.isnull) else FALSE)
            if v.base is None or (isinstance(v.base.root, tuple) and v.base.root[0] == "heap"):
                return self.fresh(name, ptr_sort())
            raise VCError("pointer %s reassigned to another object in a loop" % name)
        if isinstance(v, MapIt):
            if shape == "mapit":
                return self.mapit_at(v.base, v.keys, self.fresh(name, z3.IntSort()))
            return "dead"
        if isinstance(v, LV):
            raise VCError("reference rebinding in loop")
        if not z3.is_expr(v):
            return None
        if isinstance(shape, dict):
            d = dtinfo(v.sort())
            return d.ctor(*[self.havoc_shape(acc(v, f), shape.get(f), name + "_" + f) for f in d.fields])
        t = self.fresh(name, v.sort())
        return t

    def mapit_at(self, base, keys, idx):
        return MapIt(base, vat(keys, idx), idx >= vlen(keys), keys, idx)

    def varname(self, key):
        if isinstance(key, int):
            for fr in self.frames:
                for n, ids in fr.names.items():
                    if key in ids:
                        return n
        return sname(str(key))

    def s_for(self, s, st, k):
        if s.get("init"):
            st = self.exec(s["init"], st, k)

        def cond(x):
            if s.get("cv"):
                self.declare(s["cv"], x)
            if s.get("c"):
                return self.eval(s["c"], x)
            return TRUE

        def body(x, kk):
            return self.exec(s["b"], x, kk)

        def inc(x):
            if s.get("inc"):
                self.eval_void(s["inc"], x)
        return self.loop(s, st, k, cond, body, inc)

    def s_do(self, s, st, k):
        first = {"v": None}
        # do body while(c): model as flag-controlled loop
        flag = ("tmp", "do%d" % id(s))
        st.vars[flag] = TRUE

        def cond(x):
            return x.vars[flag]

        def body(x, kk):
            return self.exec(s["b"], x, kk)

        def inc(x):
            x.vars[flag] = self.eval(s["c"], x)
        r = self.loop(s, st, k, cond, body, inc)
        return r

    def s_rangefor(self, s, st, k):
        rt = s["r"]["t"]
        kd = self.u.kind(rt)
        v = self.x_any(s["r"], st)
        if not isinstance(v, LV):
            v = self.tmp(st, v)
        base = self.resolve(st, v)
        var = s["v"]
        fr = self.frames[-1]
        idx = ("ri", var["id"])
        st.vars[idx] = I(0)
        fr.names.setdefault(var["n"] + "__i", []).append(idx)
        if kd in ("vec", "array"):
            def cond(x):
                return x.vars[idx] < vlen(self.read(x, base))

            def body(x, kk):
                lv = base.ext(("v", x.vars[idx]))
                self.bind_loopvar(var, lv, x)
                return self.exec(s["b"], x, kk)
        elif kd in ("map", "set"):
            m = self.read(st, base)
            keys = self.enum_keys(st, m)
            kroot = ("keys", var["id"])
            st.vars[kroot] = keys
            fr.names.setdefault(var["n"] + "__keys", []).append(kroot)

            def cond(x):
                return x.vars[idx] < vlen(keys)

            def body(x, kk):
                key = vat(keys, x.vars[idx])
                if kd == "map":
                    self.bind_loopvar(var, base.ext(("mp", key)), x)
                else:
                    self.bind_loopvar(var, self.tmp(x, key), x)
                return self.exec(s["b"], x, kk)
        else:
            raise VCError("range-for over " + rt)

        def inc(x):
            x.vars[idx] = x.vars[idx] + 1
        return self.loop(s, st, k, cond, body, inc)

    def bind_loopvar(self, var, lv, x):
        fr = self.frames[-1]
        fr.names.setdefault(var["n"], [])
        if var["id"] not in fr.names[var["n"]]:
            fr.names[var["n"]].append(var["id"])
        if var["ref"]:
            x.vars[var["id"]] = lv
        else:
            x.vars[var["id"]] = self.read_typed(x, lv, var["t"])

    def enum_keys(self, st, m):
        """ghost enumeration of a map/set: each key of its domain exactly once, in unspecified order"""
        dom = acc(m, "dom")
        ks = dom.sort().domain()
        kv = self.fresh("keys", vec_sort(ks))
        i, j = z3.FreshConst(z3.IntSort(), "i"), z3.FreshConst(z3.IntSort(), "j")
        key = z3.FreshConst(ks, "k")
        posa = z3.Const("keypos!%d" % self.tmpn, z3.ArraySort(ks, z3.IntSort()))
        pos = lambda t: z3.Select(posa, t)
        KEYPOS[kv.get_id()] = (posa, kv)
        self.tmpn += 1
        a = acc(kv, "arr")
        self.facts.append(vlen(kv) == acc(m, "size"))
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vlen(kv)), z3.And(sel(dom, z3.Select(a, i)), pos(z3.Select(a, i)) == i)), patterns=[z3.Select(a, i)]))
        self.facts.append(z3.ForAll([key], z3.Implies(sel(dom, key), z3.And(pos(key) >= 0, pos(key) < vlen(kv), z3.Select(a, pos(key)) == key)),
                                    patterns=[pos(key)] + ([z3.Select(dom, key)] if z3.is_const(dom) or z3.is_app(dom) else [])))
        self.trusted.add("unordered/ordered container iteration visits every key exactly once")
        return kv

    def loop(self, s, st, k, cond, body, inc):
        fr = self.lframe()
        loopno = fr.loopno
        if not self.trial:
            fr.loopno += 1
        entry = st.fork()
        self.counters.append(None)
        try:
            return self.loop_(s, st, k, cond, body, inc, fr, loopno, entry)
        finally:
            self.counters.pop()

    def lframe(self):
        """the frame whose contract owns the loops of the current frame: inlined helpers without a contract
        of their own continue the numbering of the function they were extracted from"""
        for f in reversed(self.frames):
            if getattr(f, "contract", None) is not None:
                return f
        return self.frames[0]

    def find_counter(self, x, inc, shapes, s=None):
        try:
            t = x.fork()
            t.vars = dict(x.vars)
            inc(t)
        except VCError:
            return None
        ch = []
        for key, sh in shapes.items():
            v = x.vars.get(key)
            if key in t.vars and v is not None and self.diff(v, t.vars[key]) is not None:
                if isinstance(v, (PyPtr, MapIt)) or z3.is_expr(v) and z3.is_int(v):
                    ch.append(key)
        if not ch:
            ch = [key for key, sh in shapes.items() if isinstance(key, int) and (isinstance(x.vars.get(key), (PyPtr, MapIt)) or z3.is_expr(x.vars.get(key)) and z3.is_int(x.vars[key]))]
            if len(ch) != 1 and s is not None and isinstance(s.get("c"), dict):
                ids = set()

                def walk(n):
                    if isinstance(n, dict):
                        if n.get("k") in ("var", "param", "ref") and "id" in n:
                            ids.add(n["id"])
                        for y in n.values():
                            walk(y)
                    elif isinstance(n, list):
                        for y in n:
                            walk(y)
                walk(s["c"])
                ch = [key for key in ch if key in ids]
            if len(ch) != 1:
                return None
        ch.sort(key=lambda z: (not (isinstance(z, tuple) and z[0] == "ri"),))
        return ch[0]

    def counter_value(self, s, n):
        cs = [c for c in self.counters if c is not None]
        # n = 0: current loop, 1: enclosing loop ...
        if n >= len(self.counters) or self.counters[-1 - n] is None:
            raise SpecError("loop has no counter")
        v = self.getv(s, self.counters[-1 - n])
        if isinstance(v, PyPtr):
            return self.as_idxptr(v).idx
        if isinstance(v, MapIt):
            return v.idx
        return v

    def loop_(self, s, st, k, cond, body, inc, fr, loopno, entry):
        # 1. which variables change?
        saved = (len(self.facts), len(self.obls))
        ln = fr.loopno
        self.trial += 1
        shapes = {}
        try:
            for it in range(8):
                x = entry.fork()
                x.vars = dict(entry.vars)
                start = {}
                for key, sh in shapes.items():
                    x.vars[key] = self.havoc_shape(x.vars[key], sh, "t")
                start = dict(x.vars)
                c = cond(x)
                xb = x.fork(c)
                kk = K()
                r = body(xb, kk) if not z3.is_false(xb.reach) else None
                ends = ([r] if r is not None else []) + kk.cont
                changed = False
                for en in ends:
                    inc(en)
                    for key in start:
                        if key in en.vars:
                            sh = self.diff(start[key], en.vars[key])
                            if sh is not None:
                                n = self.join_shape(shapes.get(key), sh)
                                if n != shapes.get(key):
                                    shapes[key] = n
                                    changed = True
                # heaps / globals first touched inside the body
                for en in ends:
                    for key in en.vars:
                        if key not in start and isinstance(key, tuple) and key[0] in ("heap", "glob"):
                            ini = (self.heap_init if key[0] == "heap" else self.glob_init).get(key)
                            if ini is not None:
                                entry.vars[key] = ini
                                st.vars[key] = ini
                                changed = True
                if not changed:
                    break
            self.counters[-1] = self.find_counter(x, inc, shapes, s)
        finally:
            self.trial -= 1
            del self.facts[saved[0]:]
            self.loaded = set()
            fr.loopno = ln
        # 2. cut point
        x = entry.fork()
        for key, sh in shapes.items():
            x.vars[key] = self.havoc_shape(x.vars[key], sh, self.varname(key))
            v = x.vars[key]
            if isinstance(key, int) and z3.is_expr(v) and z3.is_int(v):
                t = self.decl_type(key)
                if t:
                    for f in self.type_facts(v, t):
                        self.facts.append(f)
            if isinstance(key, tuple) and key[0] == "ri":
                self.facts.append(v >= 0)
            if key == ("glob", "$alloc"):
                self.facts += [v >= entry.vars[key], entry.vars[key] > 0]     # blocks are never handed out twice
        invs = []
        if not self.trial:
            invs = self.loop_invs(fr, loopno, s, entry, x, shapes, cond, body, inc)
        for nm, f0, fx, _ in invs:
            self.assume(x, fx)
        c = cond(x)
        xb = x.fork(c)
        xx = x.fork(Not(c))
        if not self.trial:
            # a counter that stops exactly at its bound: state the equality (derived, so that matching can use it)
            qf = None
            for nm, f0, fx, fn in invs:
                if nm in ("le-bound", "ge-bound") and z3.is_app(fx) and fx.num_args() == 2:
                    qf = qf if qf is not None else [f for f in self.facts if not has_quant(f)]
                    eq = fx.arg(0) == fx.arg(1)
                    if self.solver(qf, z3.Implies(xx.reach, eq), 300):
                        self.assume(xx, eq)
        kk = K()
        kk.ret, kk.gotos = k.ret, k.gotos
        r = None
        if not z3.is_false(xb.reach):
            r = self.exec_body(body, xb, kk)
        ends = [r] + kk.cont
        e = self.merge(ends)
        if e is not None and not self.trial:
            inc(e)
            self.use_instances(e, entry, fr, loopno)
            for nm, f0, fx, fn in invs:
                if fn is None:
                    continue
                try:
                    g = fn(e)
                except SpecError as ex:
                    g = FALSE
                    nm = nm + " [unevaluable: %s]" % ex
                self.oblige(e, "loop invariant %s maintained (loop %d of %s)" % (nm, loopno, fr.fn["q"]), g, "inv-maintain", s["l"])
                self.assume(e, g)
        return self.merge([xx] + kk.brk)

    def use_instances(self, e, entry, fr, loopno):
        """lemma instances named by the contract for the end of a loop body (valid whatever the terms are)"""
        for f in self.frames:
            by = getattr(f, "contract", None) and f.contract.opts.get("loopby", {})
            for n, hs in (by or {}).items():
                if self.mode == "A" and (f is not fr or n != loopno):
                    continue
                for h in hs:
                    assert is_instance(h), h
                    for nm, mapping in self.rename_variants(h, entry, "by"):
                        try:
                            self.assume(e, self.spec_env(e, entry, mapping).boolean(h))
                        except (SpecError, VCError, z3.Z3Exception) as ex:
                            if self.mode == "A":
                                self.spec_errors.append("%s: %s" % (h, ex))

    def exec_body(self, body, xb, kk):
        return body(xb, kk)

    def decl_type(self, key):
        for fr in self.frames:
            t = self.decltypes(fr.fn).get(key)
            if t:
                return t
        return None

    _dtc = None

    def decltypes(self, fn):
        if self._dtc is None:
            self._dtc = {}
        c = self._dtc.get(fn["fid"])
        if c is None:
            c = {}

            def walk(o):
                if isinstance(o, dict):
                    if "id" in o and "n" in o and "t" in o and "ref" in o:
                        c[o["id"]] = o["t"] if not o["ref"] else None
                    for v in o.values():
                        walk(v)
                elif isinstance(o, list):
                    for v in o:
                        walk(v)
            walk(fn)
            self._dtc[fn["fid"]] = c
        return c

    def loop_invs(self, fr, loopno, s, entry, x, shapes, cond, body, inc):
        """returns [(name, initformula, formula at the cut, formula builder for end states)]"""
        out = []
        # automatically generated: monotone counters, bounded by the loop condition
        out += self.auto_invs(fr, loopno, s, entry, x, shapes, cond, body, inc)
        rc0 = getattr(self.frames[0], "contract", None)
        al0 = self.old_state.vars.get(("glob", "$alloc"), self.glob_init.get(("glob", "$alloc")))
        if rc0 is not None and al0 is not None and not any(m.startswith("heap:") for m in rc0.modifies):
            # blocks that existed when the function was entered keep their contents (the frame condition)
            for key in shapes:
                if isinstance(key, tuple) and key[0] == "heap" and key in self.heap_init:
                    def old_blocks(state, key=key):
                        b = z3.FreshConst(z3.IntSort(), "b")
                        h = state.vars.get(key, self.heap_init[key])
                        return z3.ForAll([b], z3.Implies(b < al0, z3.Select(h, b) == z3.Select(self.heap_init[key], b)), patterns=[z3.Select(h if z3.is_const(h) else self.heap_init[key], b)])
                    self.oblige(entry, "loop invariant heap of the caller unchanged established (loop %d of %s)" % (loopno, fr.fn["q"]), old_blocks(entry), "inv-init", s["l"])
                    out.append(("heap of the caller unchanged", None, old_blocks(x), old_blocks))
        c = fr.contract if hasattr(fr, "contract") else None
        cands = []
        if self.mode == "A":
            if c is not None:
                L = c.loops.get(loopno, [])
                cands = [split_inv(y, i) for i, y in enumerate(L)]
        else:
            # pool mode: every invariant known for the function being verified (and inlined helpers)
            root = self.frames[0]
            rc = getattr(root, "contract", None)
            seen = set()
            allc = [getattr(f, "contract", None) for f in self.frames]
            for rc in allc:
                if rc is None:
                    continue
                for lk in sorted(rc.loops, key=lambda z: (z != loopno, z)):
                    for i, y in enumerate(rc.loops[lk]):
                        n, f = split_inv(y, i)
                        if f not in seen:
                            seen.add(f)
                            cands.append(("L%d.%s" % (lk, n), f))
                for i, y in enumerate(rc.pool):
                    n, f = split_inv(y, i)
                    if f not in seen:
                        seen.add(f)
                        cands.append(("pool." + n, f))
        built = []
        for nm, src in cands:
            for nm2, mapping in self.rename_variants(src, entry, nm):
                def mk(state, src=src, mapping=mapping):
                    return self.spec_env(state, entry, mapping).boolean(src)
                try:
                    fi, fx = mk(entry), mk(x)
                except (SpecError, VCError, z3.Z3Exception) as ex:
                    if self.mode == "A":
                        self.spec_errors.append("%s: %s" % (nm, ex))
                        self.oblige(entry, "loop invariant %s evaluable (%s)" % (nm, ex), FALSE, "inv-eval", s["l"])
                    continue
                built.append((nm2, fi, fx, mk))
        if self.mode == "A":
            for nm, fi, fx, mk in built:
                self.oblige(entry, "loop invariant %s established (loop %d of %s)" % (nm, loopno, fr.fn["q"]), fi, "inv-init", s["l"])
                self.assume(entry, fi)
            return out + built
        return out + self.houdini(built, out, fr, loopno, s, entry, x, cond, body, inc)

    def rename_variants(self, src, entry, nm):
        if self.mode == "A":
            yield nm, None
            return
        yield nm, None

    def houdini(self, built, autos, fr, loopno, s, entry, x, cond, body, inc):
        base = len(self.facts)
        # initiation
        live = []
        res = self.solver_many([(list(self.facts), z3.Implies(entry.reach, fi)) for _, fi, _, _ in built])
        for b, ok in zip(built, res):
            if ok:
                live.append(b)
            else:
                self.dropped.append("%s not established at loop %d" % (b[0], loopno))
        while live:
            fsave, osave, lsave = len(self.facts), len(self.obls), fr.loopno
            xs = x.fork()
            for nm, _, fx, _ in autos:
                self.assume(xs, fx)
            for b in live:
                self.assume(xs, b[2])
            loaded = set(self.loaded)
            c = cond(xs)
            xb = xs.fork(c)
            kk = K()
            r = body(xb, kk)
            e = self.merge([r] + kk.cont)
            checks = []
            if e is not None:
                inc(e)
                for b in live:
                    try:
                        g = b[3](e)
                    except (SpecError, VCError, z3.Z3Exception):
                        g = FALSE
                    checks.append((list(self.facts), z3.Implies(e.reach, g)))
                res = self.solver_many(checks)
            else:
                res = [True] * len(live)
            del self.facts[fsave:]
            del self.obls[osave:]
            self.loaded = loaded
            fr.loopno = lsave
            nl = [b for b, ok in zip(live, res) if ok]
            for b, ok in zip(live, res):
                if not ok:
                    self.dropped.append("%s not maintained at loop %d" % (b[0], loopno))
            if len(nl) == len(live):
                break
            live = nl
        self.auto_discharged += 2 * len(live)
        return [(nm, fi, fx, None) for nm, fi, fx, _ in live]

    def solver_many(self, checks):
        return [self.solver(f, g, 8000) for f, g in checks]

    def auto_invs(self, fr, loopno, s, entry, x, shapes, cond, body, inc):
        """monotone scalar counters, checked immediately by the solver"""
        cands = []

        def leaves(v0, v, sh, getter):
            if sh is None:
                return
            if isinstance(v, PyPtr) and sh == "ptr" and self.as_idxptr(v0).idx is not None:
                cands.append((self.as_idxptr(v0).idx, v.idx, lambda e, g=getter: self.as_idxptr(g(e)).idx))
            elif isinstance(v, MapIt) and sh == "mapit":
                cands.append((v0.idx, v.idx, lambda e, g=getter: g(e).idx))
            elif isinstance(sh, dict):
                d = dtinfo(v.sort())
                for f, s2 in sh.items():
                    if f in ("arr", "dom", "val"):
                        continue
                    leaves(acc(v0, f), acc(v, f), s2, lambda e, g=getter, f=f: acc(g(e), f))
            elif z3.is_expr(v) and z3.is_int(v):
                cands.append((v0, v, getter))
        for key, sh in shapes.items():
            leaves(entry.vars[key], x.vars[key], sh, lambda e, key=key: e.vars[key])
        forms = []
        for v0, v, g in cands:
            forms.append(("ge-entry", v >= v0, lambda e, g=g, v0=v0: g(e) >= v0))
            forms.append(("le-entry", v <= v0, lambda e, g=g, v0=v0: g(e) <= v0))
        # bound from the loop condition
        fsave, osave, lsave = len(self.facts), len(self.obls), set(self.loaded)
        self.trial += 1
        try:
            c0 = cond(entry.fork())
            xt = x.fork()
            c = cond(xt)
        finally:
            self.trial -= 1
        conds = self.conjuncts(c)
        ents = self.conjuncts(c0)
        seenq = set()
        for a in conds:
            a1 = a.arg(0) if z3.is_not(a) else a
            if not (z3.is_app(a1) and a1.num_args() == 2 and z3.is_int(a1.arg(0))):
                continue
            if a1.decl().kind() not in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ):
                continue
            for q in (a1.arg(0), a1.arg(1)):
                if q.get_id() in seenq:
                    continue
                seenq.add(q.get_id())
                for v0, v, g in cands:
                    if SP.occurs(v, q):
                        continue
                    forms.append(("le-bound", v <= q, lambda e, g=g, q=q: g(e) <= q, v0 <= q))
                    forms.append(("le-bound-1", v <= q - 1, lambda e, g=g, q=q: g(e) <= q - 1, v0 <= q - 1))
                    forms.append(("le-bound1", v <= q + 1, lambda e, g=g, q=q: g(e) <= q + 1, v0 <= q + 1))
                    forms.append(("ge-bound", v >= q, lambda e, g=g, q=q: g(e) >= q, v0 >= q))
                    forms.append(("ge-bound1", v >= q - 1, lambda e, g=g, q=q: g(e) >= q - 1, v0 >= q - 1))
        if not forms:
            return []
        qf = [f for f in self.facts if not has_quant(f)]
        live = []
        for f in forms:
            if len(f) == 4:
                if self.solver(qf, z3.Implies(entry.reach, f[3]), 500):
                    live.append(f)
            else:
                live.append(f)
        while live:
            del self.facts[fsave:]
            xs = x.fork()
            for f in live:
                self.assume(xs, f[1])
            self.trial += 1
            try:
                c = cond(xs)
                xb = xs.fork(c)
                kk = K()
                r = body(xb, kk)
                e = self.merge([r] + kk.cont)
                if e is not None:
                    inc(e)
            finally:
                self.trial -= 1
            if e is None:
                break
            qf = [f for f in self.facts if not has_quant(f)]
            nl = []
            for f in live:
                try:
                    g = f[2](e)
                except Exception:
                    continue
                if self.solver(qf, z3.Implies(e.reach, g), 500):
                    nl.append(f)
            if len(nl) == len(live):
                break
            live = nl
        del self.facts[fsave:]
        del self.obls[osave:]
        self.loaded = lsave
        self.auto_discharged += len(live)
        return [(f[0], None, f[1], None) for f in live]

    def conjuncts(self, c):
        if z3.is_and(c):
            return [y for a in c.children() for y in self.conjuncts(a)]
        return [c]

    # -- spec environments ---------------------------------------------------------
    def spec_env(self, state, entry=None, mapping=None, result=None, post=False):
        root = self.frames[0]

        def look(name, which):
            s = state if which == "cur" else (self.old_state if which == "old" else (entry or self.old_state))
            if mapping and name in mapping:
                name = mapping[name]
            if name in ("_i", "_o", "_oo") and self.counters:
                return self.counter_value(s, len(name) - 1 if name != "_i" else 0)
            if name == "result" and result is not None:   # otherwise a local variable of that name
                return result if not isinstance(result, LV) else self.read(state, result)
            if name.startswith("BLK_"):     # the block that holds the elements of a local vector whose element addresses are stored
                for fr in reversed(self.frames):
                    for i in reversed(fr.names.get(name[4:], [])):
                        if i in self.redirect:
                            return self.redirect[i].path[0][1]
            # locals of the innermost frame first
            if name in self.ghosts:
                return self.ghosts[name]
            for fr in reversed(self.frames):
                if fr is root and name in getattr(fr, "parname", {}):
                    return s.vars[fr.parname[name]]
                if fr is root and hasattr(fr, "pnames") and name in fr.pnames:
                    i = fr.pnames[name]
                    if post and which == "cur" and i not in fr.refparams:
                        return self.getv(self.old_state, i)
                    return self.getv(s, i)
                ids = fr.names.get(name)
                if ids:
                    for i in reversed(ids):
                        if i in s.vars:
                            return self.getv(s, i)
                if name == "this" and fr.this is not None and fr is self.frames[-1]:
                    return self.read(s, fr.this)
            if name.startswith("HEAP_") or name == "ALLOC":
                return self.heap_term(s, name)
            for fr in reversed(self.frames):
                if fr.this is not None:
                    t = self.read(s, fr.this)
                    d = dtinfo(t.sort())
                    if name == "this":
                        return t
                    if d is not None and name in d.ix:
                        return acc(t, name)
            c = getattr(root, "contract", None)
            if c is not None and name in c.ghosts:
                return self.ghost(c, name)
            if ("glob", name) in s.vars:
                return s.vars[("glob", name)]
            if name == "alloc":
                r = ("glob", "$alloc")
                return s.vars.get(r, self.glob_init.get(r))
            al = getattr(root, "aliases", {})
            if name in al and al[name] != name:      # a local of the verified function that has been renamed
                return look(al[name], which)
            if name.startswith("BLK_") and al.get(name[4:], name[4:]) != name[4:]:
                return look("BLK_" + al[name[4:]], which)
            raise SpecError("no variable named " + name)
        return self.mkenv(look)

    def getv(self, s, i):
        v = s.vars[i]
        if isinstance(v, LV):
            return self.read(s, v)
        if isinstance(v, PyPtr) and v.idx is None and v.base is not None and isinstance(v.base.root, tuple) and v.base.root[0] == "par":
            return self.read(s, v.base)
        if v is None:
            raise SpecError("variable has no value")
        return v

    # -- whole function ------------------------------------------------------------
    def local_list(self, f):
        """[(name, type)] of the locals the function declares, in order of appearance"""
        out, seen = [], set()

        def walk(o):
            if isinstance(o, dict):
                if "id" in o and "n" in o and "t" in o and "ref" in o and o["id"] not in seen:
                    seen.add(o["id"])
                    out.append([o["n"], o["t"]])
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        walk(f.get("body"))
        return out

    def renamed_locals(self, f):
        """names the contract text knows -> names in the current source, where a local was only renamed"""
        key = "%s(%s)" % (f["q"], ",".join(f["pt"]))
        cur = self.local_list(f)
        if RECORD is not None:
            RECORD[key] = cur
            return {}
        base = BASELINE.get(key)
        if not base or base == cur:
            return {}
        bn, cn = {n for n, _ in base}, {n for n, _ in cur}
        gone = [(n, t) for n, t in base if n not in cn]
        new = [(n, t) for n, t in cur if n not in bn]
        al = {}
        for n, t in gone:
            if n in al:
                continue
            for m, t2 in new:
                if t2 == t and m not in al.values():
                    al[n] = m
                    break
        return al

    def verify(self, f, c):
        """generate the obligations of function IR `f` against contract `c`"""
        self.heap_init = {}
        self.glob_init = {}
        self.ghosts = {}
        self.redirect = {}
        self.opts = c.opts
        if "maxlen" in c.opts:
            self.MAXLEN = c.opts["maxlen"]
        st = St({}, TRUE)
        this = None
        isctor = f.get("ctor", False)
        if f.get("cls") and not f.get("static"):
            tv = self.fresh_typed("this", f["cls"]) if not isctor else self.default_value(st, f["cls"], raw=True)
            st.vars["this"] = tv
            this = LV("this")
        fr = Frame(f, this)
        fr.contract = c
        fr.pnames = {}
        fr.refparams = set()
        fr.aliases = self.renamed_locals(f)
        self.frames = [fr]
        self.inline_stack = [f["fid"]]
        pn = c.params or [p["n"] for p in f["params"]]
        for p, n in zip(f["params"], pn):
            t = self.u.ty(p["t"])
            fr.pnames[n] = p["id"]
            fr.names.setdefault(p["n"], []).append(p["id"])
            if t["k"] == "ref":
                root = ("par", p["id"])
                st.vars[root] = self.param_value(p, n, t["to"], st)
                st.vars[p["id"]] = LV(root)
                fr.refparams.add(p["id"])
            elif n in c.opts.get("objptr", ()):
                # pointer parameter to one object no other argument overlaps (checked at the calls)
                root = ("par", p["id"])
                st.vars[root] = self.fresh_typed(n, t["to"])
                st.vars[p["id"]] = PyPtr(LV(root), None)
                fr.refparams.add(p["id"])
            elif n in c.opts.get("vecptr", ()):
                # pointer parameter into an array: spec name = the array, name_off = position of the pointer
                root = ("par", p["id"])
                st.vars[root] = self.fresh_typed_vec(n, t["to"])
                off = z3.Int(n + "_off")
                self.ghosts[n + "_off"] = off
                self.facts.append(And(off >= 0, off <= vlen(st.vars[root])))
                st.vars[p["id"]] = PyPtr(LV(root), off)
                fr.refparams.add(p["id"])
                fr.parname = getattr(fr, "parname", {})
                fr.parname[n] = root
            else:
                kd = self.u.kind(p["t"])
                st.vars[p["id"]] = self.param_value(p, n, p["t"], st)
        self.old_state = st.fork()
        env = self.spec_env(st, st)
        for ax in c.axioms:
            self.facts.append(env.boolean(ax) if isinstance(ax, str) else ax(self, env))
        for nm, r in c.requires:
            self.assume(st, env.boolean(r))
        # anything first touched by the preconditions belongs to the initial state
        self.old_state = st.fork()
        self.nfacts_pre = len(self.facts)
        for nm, h in [(x if isinstance(x, tuple) else ("hint", x)) for x in c.entry_hints]:
            g = env.boolean(h)
            self.oblige(st, "hint " + nm, g, "hint")
            self.assume(st, g)
        k = K()
        if isctor:
            self.ctor_inits(f, st)
        end = self.exec(f["body"], st, k) if "body" in f else st
        if k.gotos:
            raise VCError("goto %s: only forward jumps to a label of an enclosing block" % sorted(k.gotos))
        rt = self.u.ty(f["ret"])
        if end is not None and (rt["k"] == "void" or isctor):
            k.ret.append((end, None))
        rets = [(s, v) for s, v in k.ret if not z3.is_false(s.reach)]
        if not rets:
            raise VCError("no path of %s returns" % f["q"])
        for n, (s, v) in enumerate(rets):
            # heaps/globals never touched keep their initial value
            for key, ini in list(self.heap_init.items()) + list(self.glob_init.items()):
                self.old_state.vars.setdefault(key, ini)
                s.vars.setdefault(key, ini)
            env = self.spec_env(s, self.old_state, None, v, post=True)
            tag = "" if len(rets) == 1 else " [return %d of %d]" % (n + 1, len(rets))
            for nm, h in [(x if isinstance(x, tuple) else ("hint", x)) for x in c.hints]:
                try:
                    g = env.boolean(h)
                except SpecError:
                    continue
                if not is_instance(h):
                    self.oblige(s, "hint " + nm + tag, g, "hint")
                self.assume(s, g)
            for nm, q in c.ensures:
                g = env.boolean(q)
                self.oblige(s, "postcondition %s%s" % (nm, tag), g, "post", f["end"])
                self.assume(s, g)
            self.frame_check(c, f, fr, s, tag)
        self.rets = rets

    def param_value(self, p, n, tkey, st):
        kd = self.u.kind(tkey)
        if kd in ("iter",):
            # an iterator parameter ranges over a ghost vector
            vs = self.iter_vec_sort(tkey)
            root = ("ghostvec", p["id"])
            st.vars[root] = self.fresh(n + "_vec", vs)
            return PyPtr(LV(root), self.fresh(n + "_idx", z3.IntSort()))
        v = self.fresh_typed(n, tkey)
        return v

    def fresh_typed_vec(self, n, tkey):
        es = self.u.sort(tkey)
        v = self.fresh(n, vec_sort(es))
        self.facts.append(vlen(v) >= 0)
        i = z3.FreshConst(z3.IntSort(), "i")
        fs = self.type_facts(vat(v, i), tkey)
        if fs:
            self.facts.append(z3.ForAll([i], And(*fs), patterns=[z3.Select(acc(v, "arr"), i)]))
        return v

    def iter_vec_sort(self, tkey):
        t = self.u.ty(self.u.strip_ref(tkey))
        a = t["args"]
        if t["name"] == "__gnu_cxx::__normal_iterator":
            return self.u.sort(a[1])
        raise VCError("iterator parameter " + tkey)

    def frame_check(self, c, f, fr, s, tag):
        mods = c.modifies
        old = self.old_state

        def allowed(root, path):
            return path in mods or any(path.startswith(m + ".") for m in mods)

        def check(path, a, b):
            if allowed(None, path):
                return
            sh = self.diff(a, b)
            if sh is None:
                return
            if any(m.startswith(path + ".") for m in mods) or ("elems:" + path) in mods:
                d = dtinfo(a.sort())
                for fld in d.fields:
                    if ("elems:" + path) in mods and fld == "arr":
                        continue
                    check(path + "." + fld, acc(a, fld), acc(b, fld))
                return
            self.oblige(s, "frame: %s unchanged%s" % (path, tag), a == b, "frame", f["end"])
        if fr.this is not None and not f.get("ctor"):
            check("this", old.vars["this"], s.vars["this"])
        for n, i in fr.pnames.items():
            if i in fr.refparams:
                r = ("par", i)
                a, b = old.vars[r], s.vars[r]
                if z3.is_expr(a) and z3.is_expr(b):
                    check(n, a, b)
        for key in s.vars:
            if isinstance(key, tuple) and key[0] == "ghostvec":
                check("vecof", old.vars[key], s.vars[key]) if not any(m.startswith("vecof") or m in fr.pnames for m in mods) else None
            if isinstance(key, tuple) and key[0] == "heap":
                if not any(m.startswith("heap:") for m in mods):
                    a = old.vars.get(key, self.heap_init.get(key))
                    if self.diff(a, s.vars[key]) is not None:
                        # blocks that existed before are unchanged
                        al = old.vars.get(("glob", "$alloc"), self.glob_init.get(("glob", "$alloc")))
                        b = z3.FreshConst(z3.IntSort(), "b")
                        g = z3.ForAll([b], z3.Implies(b < al, z3.Select(a, b) == z3.Select(s.vars[key], b))) if al is not None and not any(isinstance(q, str) and ("HEAP_" in q or "ALLOC" in q) for _, q in c.ensures) else a == s.vars[key]
                        self.oblige(s, "frame: heap unchanged%s" % tag, g, "frame", f["end"])
            if isinstance(key, tuple) and key[0] == "glob" and key[1] != "$alloc":
                a = old.vars.get(key, self.glob_init.get(key))
                if a is not None and ("glob:" + key[1]) not in mods and self.diff(a, s.vars[key]) is not None:
                    self.oblige(s, "frame: global %s unchanged%s" % (key[1], tag), a == s.vars[key], "frame", f["end"])


_hq = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq:
        return _hq[i][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    _hq[i] = (t, r)
    return r


def ptr_null():
    return dtinfo(ptr_sort()).ctor(I(0), I(0))
