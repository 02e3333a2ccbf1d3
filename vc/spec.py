"""The contract language: Python expression syntax evaluated to SMT terms."""
import ast
import z3
from ir import VCError, dtinfo

B = z3.BoolVal


class SpecError(Exception):
    """A specification expression names something the code does not have."""


_parse_cache = {}


def parse(src):
    if src not in _parse_cache:
        _parse_cache[src] = ast.parse(src.strip(), mode="eval").body
    return _parse_cache[src]


def acc(t, f):
    """field of a single-constructor datatype term, simplifying constructor applications"""
    d = dtinfo(t.sort())
    if d is None or f not in d.ix:
        raise SpecError("no field %s in %s" % (f, t.sort()))
    i = d.ix[f]
    if z3.is_app(t) and t.decl().eq(d.ctor):
        return t.arg(i)
    return d.acc[i](t)


def sel(a, i):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j):
            a = a.arg(0)
            continue
        d = None
        if z3.is_int(i) and z3.is_int(j):
            d = z3.simplify(i - j)
            if z3.is_int_value(d):
                if d.as_long() == 0:
                    return a.arg(2)
                a = a.arg(0)
                continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def is_vec(t):
    d = dtinfo(t.sort())
    return d is not None and d.fields == ["len", "arr"]


def is_map(t):
    d = dtinfo(t.sort())
    return d is not None and d.fields == ["dom", "val", "size"]


def is_set(t):
    d = dtinfo(t.sort())
    return d is not None and d.fields == ["dom", "size"]


def vlen(t):
    return acc(t, "len")


def vat(t, i):
    i = lift(i)
    return sel(acc(t, "arr"), i)


FUNCS = {}      # name -> python function(env, *terms)


def specfn(name=None):
    def deco(f):
        FUNCS[name or f.__name__] = f
        return f
    return deco


def macro(name, args, text):
    """a named specification predicate: text over the argument names"""
    an = args.split()

    def f(env, *a):
        if len(a) != len(an):
            raise SpecError("%s: %d arguments expected" % (name, len(an)))
        sv = env.bound
        env.bound = dict(zip(an, a))
        try:
            return env.ev(text)
        finally:
            env.bound = sv
    FUNCS[name] = f


# recursive ghost functions: f(args) unfolded on ground applications
RECS = {}


class RecFn:
    def __init__(self, name, argsorts, ret, body, depth=2):
        self.name, self.body, self.depth = name, body, depth
        self.decl = z3.Function("g_" + name, *argsorts, ret)
        RECS[self.decl.get_id()] = self
        FUNCS[name] = lambda env, *a: self(*a)

    def __call__(self, *a):
        a = [x if z3.is_expr(x) else (z3.IntVal(x) if not isinstance(x, bool) else B(x)) for x in a]
        return self.decl(*a)


def recfn(name, argsorts, ret, depth=2):
    def deco(f):
        return RecFn(name, argsorts, ret, f, depth)
    return deco


def unfold_ground(terms, depth=2, extra_ok=None):
    """defining equations of every ground application of a recursive ghost function in `terms`"""
    out, seen, done = [], set(), set()
    frontier = list(terms)
    for d in range(12):
        apps = []
        stack = list(frontier)
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            if z3.is_app(t):
                r = RECS.get(t.decl().get_id())
                if r is not None and t.get_id() not in done and not has_var(t):
                    done.add(t.get_id())
                    if d < r.depth:
                        apps.append((r, t))
                stack.extend(t.children())
        if not apps:
            break
        frontier = []
        for r, t in apps:
            eq = t == r.body(*t.children())
            out.append(eq)
            frontier.append(eq)
    return out


_hv = {}


def has_var(t):
    i = t.get_id()
    if i in _hv:
        return _hv[i][1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = has_var(t.body())
    else:
        r = any(has_var(c) for c in t.children())
    _hv[i] = (t, r)
    return r


BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
          z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_DISTINCT}


def bad_pattern(t):
    if z3.is_quantifier(t):
        return True
    return z3.is_app(t) and (t.decl().kind() in BADPAT or any(bad_pattern(c) for c in t.children()))


def occurs(v, t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


def coerce(a, b):
    """numeric literal coercion"""
    if isinstance(a, bool):
        a = B(a)
    if isinstance(b, bool):
        b = B(b)
    if isinstance(a, (int, float)) and z3.is_expr(b):
        a = _lit(a, b.sort())
    if isinstance(b, (int, float)) and z3.is_expr(a):
        b = _lit(b, a.sort())
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() == z3.RealSort() and b.sort() == z3.IntSort():
            b = z3.ToReal(b)
        elif b.sort() == z3.RealSort() and a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        elif a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        elif b.sort() == z3.BoolSort() and a.sort() == z3.IntSort():
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    return a, b


def _lit(v, s):
    if s == z3.RealSort():
        return z3.RealVal(v)
    if s == z3.IntSort():
        return z3.IntVal(v)
    if z3.is_bv_sort(s):
        return z3.BitVecVal(v, s.size())
    if s == z3.BoolSort():
        return B(bool(v))
    raise SpecError("literal of sort %s" % s)


def lift(x):
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(x)
    return x


def is_instance(h):
    """is the hint nothing but an instance of a lemma: by_<lemma>(terms) ?"""
    if not isinstance(h, str) or "by_" not in h:
        return False
    t = ast.parse(h.strip(), mode="eval").body
    while isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "forall" and isinstance(t.args[-1], ast.Lambda):
        t = t.args[-1].body
    return isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id.startswith("by_")


class Env:
    """evaluates spec expressions; `look(name, which)` returns a term; which in cur/old/entry"""

    def __init__(self, look, sortof=None):
        self.look = look
        self.which = "cur"
        self.bound = {}
        self.sortof = sortof

    def ev(self, src):
        n = parse(src) if isinstance(src, str) else src
        return self.e(n)

    def boolean(self, src):
        t = lift(self.ev(src))
        if not z3.is_bool(t):
            raise SpecError("not boolean: %s" % src)
        return t

    def e(self, n):
        m = getattr(self, "n_" + type(n).__name__, None)
        if m is None:
            raise SpecError("unsupported spec syntax " + ast.dump(n))
        return m(n)

    def n_Constant(self, n):
        return n.value

    def n_Name(self, n):
        if n.id in self.bound:
            return self.bound[n.id]
        if n.id == "True":
            return B(True)
        if n.id == "False":
            return B(False)
        return self.look(n.id, self.which)

    def n_Attribute(self, n):
        b = self.e(n.value)
        if hasattr(b, "spec_attr"):
            return b.spec_attr(n.attr)
        return acc(b, n.attr)

    def n_Subscript(self, n):
        b = self.e(n.value)
        i = lift(self.e(n.slice))
        if is_vec(b):
            return vat(b, i)
        if is_map(b):
            return sel(acc(b, "val"), i)
        if z3.is_array(b):
            return sel(b, i)
        raise SpecError("cannot index %s" % b.sort())

    def n_UnaryOp(self, n):
        v = self.e(n.operand)
        if isinstance(n.op, ast.Not):
            return z3.Not(lift(v))
        if isinstance(n.op, ast.USub):
            return -v
        raise SpecError("unary")

    def n_BoolOp(self, n):
        vs = [lift(self.e(v)) for v in n.values]
        return z3.And(*vs) if isinstance(n.op, ast.And) else z3.Or(*vs)

    def n_IfExp(self, n):
        c = lift(self.e(n.test))
        a, b = coerce(self.e(n.body), self.e(n.orelse))
        return z3.If(c, lift(a), lift(b))

    def n_BinOp(self, n):
        a, b = coerce(self.e(n.left), self.e(n.right))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Pow: lambda: a ** b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Div: lambda: a / b}[type(n.op)]()
        op = type(n.op)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op is ast.FloorDiv or op is ast.Div:
            return a / b
        if op is ast.Mod:
            return a % b
        if op is ast.BitAnd:
            return a & b
        if op is ast.BitOr:
            return a | b
        if op is ast.BitXor:
            return a ^ b
        if op is ast.LShift:
            return a << b
        if op is ast.RShift:
            return z3.LShR(a, b)
        raise SpecError("binop")

    def n_Compare(self, n):
        l = self.e(n.left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            r = self.e(c)
            out.append(self.cmp(op, l, r))
            l = r
        return out[0] if len(out) == 1 else z3.And(*[lift(o) for o in out])

    def cmp(self, op, a, b):
        o = type(op)
        if o in (ast.In, ast.NotIn):
            r = sel(acc(b, "dom"), lift(a))
            return r if o is ast.In else z3.Not(r)
        a, b = coerce(a, b)
        if isinstance(a, int) and isinstance(b, int):
            a = lift(a)
        if o is ast.Eq:
            return a == b
        if o is ast.NotEq:
            return a != b
        if z3.is_bv(a) if z3.is_expr(a) else False:
            return {ast.Lt: z3.ULT, ast.LtE: z3.ULE, ast.Gt: z3.UGT, ast.GtE: z3.UGE}[o](a, b)
        if o is ast.Lt:
            return a < b
        if o is ast.LtE:
            return a <= b
        if o is ast.Gt:
            return a > b
        if o is ast.GtE:
            return a >= b
        raise SpecError("cmp")

    def n_Tuple(self, n):
        return tuple(self.e(x) for x in n.elts)

    def n_Call(self, n):
        if not isinstance(n.func, ast.Name):
            raise SpecError("call")
        f = n.func.id
        if f in ("old", "entry", "at_old", "at_entry", "cur"):
            sv = self.which
            self.which = {"old": "old", "entry": "entry", "cur": "cur"}[f.replace("at_", "")]
            try:
                return self.e(n.args[0])
            finally:
                self.which = sv
        if f in ("forall", "exists"):
            lam = n.args[-1]
            sorts = [z3.IntSort()] * len(lam.args.args)
            kws = {k.arg: k.value for k in n.keywords}
            if len(n.args) > 1:
                sorts = [self.sort_arg(a) for a in n.args[:-1]]
            vs = []
            sv = dict(self.bound)
            for a, s in zip(lam.args.args, sorts):
                v = z3.FreshConst(s, a.arg)
                vs.append(v)
                self.bound[a.arg] = v
            try:
                body = lift(self.e(lam.body))
                pats = []
                if "pat" in kws:
                    p = kws["pat"]
                    items = p.elts if isinstance(p, ast.List) else [p]
                    for it in items:
                        t = self.e(it)
                        ts = t if isinstance(t, tuple) else (t,)
                        ts = tuple(self.patternable(x, vs) for x in ts)
                        if any(x is None for x in ts):
                            continue
                        if all(any(occurs(v, x) for x in ts) for v in vs) and all(any(occurs(v, x) for v in vs) for x in ts):
                            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            finally:
                self.bound = sv
            return (z3.ForAll if f == "forall" else z3.Exists)(vs, body, patterns=pats) if f == "forall" else z3.Exists(vs, body, patterns=pats)
        if f == "let":
            # let(value, lambda x: body)
            lam = n.args[1]
            v = self.e(n.args[0])
            sv = dict(self.bound)
            self.bound[lam.args.args[0].arg] = v
            try:
                return self.e(lam.body)
            finally:
                self.bound = sv
        if f == "pred":
            # pred(lambda...) -> python closure for higher-order spec functions
            raise SpecError("pred")
        args = [self.e(a) for a in n.args]
        g = FUNCS.get(f)
        if g is None:
            raise SpecError("unknown spec function " + f)
        r = g(self, *args)
        return r

    namer = None

    def patternable(self, t, vs):
        """t with ground array sub-terms the solver cannot use in a pattern replaced by names"""
        if not z3.is_app(t):
            return t
        if not any(occurs(v, t) for v in vs):
            if bad_pattern(t):
                return self.namer(t) if self.namer else None
            return t
        k = t.decl().kind()
        if k in BADPAT:
            return None
        cs = [self.patternable(c, vs) for c in t.children()]
        if any(c is None for c in cs):
            return None
        return t.decl()(*cs) if cs else t

    def sort_arg(self, a):
        if isinstance(a, ast.Constant):
            nm = a.value
            if nm == "int":
                return z3.IntSort()
            if nm == "real":
                return z3.RealSort()
            if nm == "bool":
                return z3.BoolSort()
            return self.sortof(nm)
        t = self.e(a)
        return t.sort()


@specfn("len")
def _len(env, v):
    if is_vec(v):
        return vlen(v)
    return acc(v, "size")


@specfn("implies")
def _implies(env, a, b):
    return z3.Implies(lift(a), lift(b))


@specfn("iff")
def _iff(env, a, b):
    return lift(a) == lift(b)


@specfn("ite")
def _ite(env, c, a, b):
    a, b = coerce(a, b)
    return z3.If(lift(c), lift(a), lift(b))


@specfn("min")
def _min(env, a, b):
    a, b = coerce(a, b)
    a, b = lift(a), lift(b)
    return z3.If(b < a, b, a)


@specfn("max")
def _max(env, a, b):
    a, b = coerce(a, b)
    a, b = lift(a), lift(b)
    return z3.If(a < b, b, a)


@specfn("dom")
def _dom(env, m):
    return acc(m, "dom")


@specfn("val")
def _val(env, m):
    return acc(m, "val")


@specfn("arr")
def _arr(env, v):
    return acc(v, "arr")


@specfn("real")
def _real(env, v):
    v = lift(v)
    return z3.ToReal(v) if z3.is_int(v) else v


@specfn("mk")
def _mk(env, like, *args):
    """mk(x, a, b, ..): a value of x's (single-constructor) sort"""
    d = dtinfo(like.sort())
    return d.ctor(*[lift(a) for a in args])


@specfn("store")
def _store(env, a, i, v):
    return z3.Store(a, lift(i), lift(v))


@specfn("dt")
def _dt(env, t, f):
    return acc(t, f)


@specfn("null")
def _null(env, p):
    if hasattr(p, "spec_null"):
        return p.spec_null()
    return acc(p, "blk") == 0
