"""IR loading and the mapping from C++ types to SMT sorts."""
import json, os, re, subprocess, tempfile
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class VCError(Exception):
    """The extracted code leaves the fragment the generator understands."""


def cxxflags():
    fl = ["-std=c++14", "-include", "/opt/vp/cmake/compat.h" if os.path.exists("/opt/vp/cmake/compat.h")
          else os.path.join(VERIF, "harness/cfg/compat.h")]
    inc = [REPO, REPO + "/utils", REPO + "/extractor", REPO + "/extractor/features", REPO + "/decoder", REPO + "/mteval", REPO + "/klm",
           REPO + "/training/utils", REPO + "/word-aligner", REPO + "/_build", REPO + "/_build/decoder",
           VERIF + "/harness/cfg"]
    fl += ["-I" + i for i in inc]
    fl += ["-isystem", "/usr/include/eigen3", "-DHAVE_CONFIG_H", "-DKENLM_MAX_ORDER=6"]
    return fl


def ensure_extractor():
    exe = os.path.join(BUILD, "vcextract")
    src = os.path.join(VERIF, "vc/extract.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], check=True,
                   stdout=subprocess.DEVNULL)
    os.replace(tmp, exe)
    return exe


def extract(src, roots, extra_flags=()):
    """Parse `src` now and return the IR reachable from `roots`."""
    exe = ensure_extractor()
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        cmd = [exe, out, ";".join(roots), src, "--"] + cxxflags() + list(extra_flags) + \
              ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        try:
            ir = json.load(open(out))
        except Exception:
            raise VCError("front end failed on %s: %s" % (src, p.stderr[-2000:]))
        if ir.get("errors"):
            raise VCError("front end: errors in %s: %s" % (src, p.stderr[-2000:]))
        return Unit(ir, src)
    finally:
        os.unlink(out)


_dt_cache = {}


def sname(s):
    return re.sub(r"[^A-Za-z0-9_]", "_", str(s))


def mk_dt(name, fields):
    """single-constructor datatype; fields = [(name, sort)]"""
    key = (name, tuple((f, s.sexpr() if hasattr(s, "sexpr") else str(s)) for f, s in fields))
    if key in _dt_cache:
        return _dt_cache[key]
    nm = sname(name)
    if any(k[0] == name or sname(k[0]) == nm for k in _dt_cache):
        nm = nm + "_%d" % len(_dt_cache)
    d = z3.Datatype(nm)
    d.declare("mk_" + nm, *[("%s_%s" % (nm, sname(f)), s) for f, s in fields])
    s = d.create()
    _dt_cache[key] = s
    DTINFO[s.get_id() if hasattr(s, "get_id") else z3.Z3_get_ast_id(s.ctx_ref(), s.as_ast())] = DT(name, s, [f for f, _ in fields])
    return s


class DT:
    def __init__(self, name, sort, fields):
        self.name, self.sort, self.fields = name, sort, fields
        self.ctor = sort.constructor(0)
        self.acc = [sort.accessor(0, i) for i in range(len(fields))]
        self.ix = {f: i for i, f in enumerate(fields)}


DTINFO = {}


def dtinfo(sort):
    return DTINFO.get(z3.Z3_get_ast_id(sort.ctx_ref(), sort.as_ast()))


def vec_sort(es):
    return mk_dt("Vec<%s>" % es.sexpr(), [("len", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), es))])


def map_sort(ks, vs):
    return mk_dt("Map<%s,%s>" % (ks.sexpr(), vs.sexpr()), [("dom", z3.ArraySort(ks, z3.BoolSort())),
                                                            ("val", z3.ArraySort(ks, vs)), ("size", z3.IntSort())])


def set_sort(ks):
    return mk_dt("Set<%s>" % ks.sexpr(), [("dom", z3.ArraySort(ks, z3.BoolSort())), ("size", z3.IntSort())])


def sp_sort(s):
    return mk_dt("SP<%s>" % s.sexpr(), [("nonnull", z3.BoolSort()), ("val", s)])


def link_sort(name):
    """smart pointer to an object of the type being defined: only its identity is kept"""
    return mk_dt("Link<%s>" % name, [("nonnull", z3.BoolSort()), ("val", z3.DeclareSort("LinkTo_" + sname(name)))])


PTR = None


def ptr_sort():
    global PTR
    if PTR is None:
        PTR = mk_dt("Ptr", [("blk", z3.IntSort()), ("off", z3.IntSort())])
    return PTR


VECS = {"std::vector", "std::deque", "std::__cxx11::basic_string", "std::basic_string", "std::initializer_list", "std::array",
        "std::list", "std::__cxx11::list"}
MAPS = {"std::map", "std::unordered_map", "std::tr1::unordered_map", "boost::unordered_map"}
SETS = {"std::set", "std::unordered_set", "std::tr1::unordered_set"}
SPS = {"std::shared_ptr", "boost::shared_ptr", "std::unique_ptr", "boost::scoped_ptr", "boost::intrusive_ptr", "std::__shared_ptr"}


class Unit:
    def __init__(self, ir, src):
        self.src = src
        self.types = ir["types"]
        self.records = ir["records"]
        self.functions = ir["functions"]
        self.missing = ir["missing"]
        self.byname = {}
        for fid, f in self.functions.items():
            f["fid"] = int(fid)
            self.byname.setdefault(f["q"], []).append(f)
        self._sorts = {}
        self._stack = []
        self.opts = {"float": "real", "opaque": set(), "sp_opaque": set()}
        self.overrides = {}

    # -- types ---------------------------------------------------------
    def ty(self, key):
        k = key
        if k in self.types:
            return self.types[k]
        raise VCError("unknown type " + key)

    def strip_ref(self, key):
        t = self.ty(key)
        while t["k"] == "ref":
            key = t["to"]
            t = self.ty(key)
        return key

    def strip_const(self, key):
        return key

    def kind(self, key):
        t = self.ty(self.strip_ref(key))
        if t["k"] != "rec":
            return t["k"]
        n = t["name"]
        if n in VECS or n in self.opts.get("veclike", ()):
            return "vec"
        if n in MAPS or n in self.opts.get("maplike", ()):
            return "map"
        if n in SETS:
            return "set"
        if n in SPS:
            return "sp"
        if n == "__gnu_cxx::__normal_iterator":
            return "iter"
        if n in ("std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Bit_iterator_base", "std::_Deque_iterator", "std::_List_iterator", "std::_List_const_iterator"):
            return "iter"
        if n.rsplit("::", 1)[-1] in ("iterator", "const_iterator") and n.rsplit("::", 1)[0] in self.opts.get("maplike", ()):
            return "mapiter"
        if n.startswith("std::_Rb_tree_") and "iterator" in n or n.startswith("std::__detail::_Node_") and "iterator" in n:
            return "mapiter"
        if n == "std::_Bit_reference":
            return "bitref"
        return "rec"

    def elem(self, key):
        """element type key of a vector-like"""
        t = self.ty(self.strip_ref(key))
        if t["k"] in ("array", "ptr"):
            return t["to"]
        return t["args"][0]

    def sort(self, key):
        key = self.strip_ref(key)
        if key in self.overrides:
            return self.overrides[key]
        s = self._sorts.get(key)
        if s is None:
            if key in self._stack:
                raise VCError("recursive type " + key)
            self._stack.append(key)
            try:
                s = self._mk_sort(key)
            finally:
                self._stack.pop()
            self._sorts[key] = s
        return s

    def opaque(self, key):
        return z3.DeclareSort("Opaque_" + sname(key))

    def _mk_sort(self, key):
        t = self.ty(key)
        k = t["k"]
        if k == "bool":
            return z3.BoolSort()
        if k == "int":
            return z3.IntSort()
        if k == "float":
            return z3.RealSort()
        if k in ("ptr", "nullptr"):
            return ptr_sort()
        if k == "array":
            return vec_sort(self.sort(t["to"]))
        if k == "rec":
            if key in self.opts["opaque"] or t["name"] in self.opts["opaque"]:
                return self.opaque(key)
            kd = self.kind(key)
            a = t.get("args", [])
            if kd == "vec":
                if t["name"] in ("std::basic_string", "std::__cxx11::basic_string"):
                    return vec_sort(z3.IntSort())
                return vec_sort(self.sort(a[0]))
            if kd == "map" and t["name"] not in MAPS:
                return map_sort(z3.IntSort(), self.sort(a[0]))
            if kd == "map":
                return map_sort(self.sort(a[0]), self.sort(a[1]))
            if kd == "set":
                return set_sort(self.sort(a[0]))
            if kd == "sp":
                try:
                    return sp_sort(self.sort(a[0]))
                except VCError:
                    return self.opaque(key)
            if key in self.records and self.records[key]:
                r = self.records[key]
                fs = []
                for i, b in enumerate(r["bases"]):
                    try:
                        bs = self.sort(b)
                    except VCError:
                        bs = self.opaque(b)
                    if t["name"] == "std::pair":
                        continue
                    fs.append(("base$%d" % i, bs))
                for f in r["fields"]:
                    try:
                        ft = self.types.get(f["t"])
                        if ft and ft["k"] == "rec" and ft["name"] in SPS and self.strip_ref(ft["args"][0]) in self._stack:
                            fs.append((f["name"], link_sort(self.strip_ref(ft["args"][0]))))
                            continue
                        fs.append((f["name"], self.sort(f["t"])))
                    except VCError:
                        fs.append((f["name"], self.opaque(f["t"])))
                if not fs:
                    fs = [("dummy$", z3.IntSort())]
                return mk_dt(key, fs)
            if t["name"] in ("std::less", "std::greater", "std::equal_to", "std::hash", "std::allocator"):
                return self.opaque(key)
            return self.opaque(key)
        if k in ("void", "fn"):
            return self.opaque(key)
        return self.opaque(key)
