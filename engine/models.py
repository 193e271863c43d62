"""Trusted models of the library calls that the verified functions make
(standard library, deal.II tensors, matrices and vectors) and the logical
meaning of the specification vocabulary of contracts/verify.h."""
import re
from fractions import Fraction
import terms as T
import prover
from values import *
import linalg
import fem

NO = linalg.NO = object()
used = {}           # trusted library functions actually applied


def I(n):
    return T.num(n, "I")


def last(name):
    m = re.search(r"(operator\s*.*|~?[A-Za-z_0-9]+)$", name)
    return m.group(1) if m else name


def base_rec(rec):
    return rec["name"]


TENSOR = ("dealii::Tensor", "dealii::Point", "dealii::SymmetricTensor", "dealii::DerivativeForm")
VECTOR = ("std::vector", "std::array", "std::deque", "std::__debug::vector", "std::initializer_list",
          "dealii::Vector", "dealii::BlockVector", "std::set", "std::list")
POINTER = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access",
           "dealii::SmartPointer", "std::weak_ptr")
MATRIX = ("dealii::FullMatrix", "dealii::LAPACKFullMatrix", "dealii::Table", "dealii::TableBase")


def tensor_shape(it, rec):
    n = rec["name"]
    if n == "dealii::Point":
        return 1, it.targ_int(rec, 0), False
    return it.targ_int(rec, 0), it.targ_int(rec, 1), n == "dealii::SymmetricTensor"


# ------------------------------------------------------------ construction
def mk_tens(rank, dim, fn, sym=False):
    c = []
    for k in range(dim ** rank):
        ix = []
        q = k
        for _ in range(rank):
            ix.append(q % dim)
            q //= dim
        ix = ix[::-1]
        if sym:
            ix = canon_sym(ix)
        c.append(fn(ix))
    return Tens(rank, dim, c, sym)


def canon_sym(ix):
    if len(ix) == 2:
        return sorted(ix)
    if len(ix) == 4:
        return sorted(ix[:2]) + sorted(ix[2:])
    return ix


def mkrec(it, rec, tid, name, args):
    n = rec["name"]
    v = linalg.mkrec(it, rec, tid, name, args)
    if v is not None:
        return v
    if n in TENSOR:
        rank, dim, sym = tensor_shape(it, rec)
        return mk_tens(rank, dim, lambda ix: F(T.sym(name, "R", tuple(args) + tuple(I(i) for i in ix))), sym)
    if n in ("std::vector", "std::deque", "std::list", "std::set"):
        sz = T.sym(name + ".size", "I", args)
        it.nonneg(sz)
        et = it.targ_type(rec, 0)
        return Arr(sz, lambda i: it.mkval(et, name, tuple(args) + (i,)))
    if n == "std::array":
        et = it.targ_type(rec, 0)
        return Arr(I(it.targ_int(rec, 1)), lambda i: it.mkval(et, name, tuple(args) + (i,)))
    if n == "dealii::Vector":
        sz = T.sym(name + ".size", "I", args)
        it.nonneg(sz)
        return Arr(sz, lambda i: F(T.sym(name, "R", tuple(args) + (i,))), kind="lavec")
    if n == "dealii::FullMatrix":
        r, c = T.sym(name + ".rows", "I", args), T.sym(name + ".cols", "I", args)
        it.nonneg(r)
        it.nonneg(c)
        return Arr(r, lambda i: Arr(c, lambda j: F(T.sym(name, "R", tuple(args) + (i, j)))), cols=c, kind="mat")
    if n in POINTER:
        return it.fresh_pointee(it.targ_type(rec, 0), name + "*", args)
    if n in ("std::pair", "std::tuple"):
        return Pair([it.mkval(a["t"], "%s.%d" % (name, i), args) for i, a in enumerate(rec["args"]) if "t" in a])
    if n in ("std::basic_string", "std::string"):
        return Str(None)
    if n == "std::map":
        if it.pointwise and it.ty(it.targ_type(rec, 0))["k"] in ("int", "enum"):
            et = it.targ_type(rec, 1)
            return Arr(T.sym(name + ".size", "I", tuple(args)), lambda k: it.mkval(et, name, tuple(args) + (k,)), kind="map")
        return MapV((), None)
    return None


def default_value(it, rec, tid):
    n = rec["name"]
    v = linalg.default_value(it, rec, tid)
    if v is not None:
        return v
    if n in TENSOR:
        rank, dim, sym = tensor_shape(it, rec)
        return Tens(rank, dim, [FZERO] * dim ** rank, sym)
    if n in ("std::vector", "dealii::Vector", "std::deque", "std::set", "std::list"):
        et = it.targ_type(rec, 0)
        return Arr(I(0), lambda i: it.zero_value(et), kind="lavec" if n == "dealii::Vector" else "vec")
    if n == "std::array":
        et = it.targ_type(rec, 0)
        z = [None]

        def zf(i):
            return it.zero_value(et)
        return Arr(I(it.targ_int(rec, 1)), zf)
    if n == "dealii::FullMatrix":
        return matrix(it, I(0), I(0))
    if n in POINTER:
        return NULL
    if n in ("std::basic_string", "std::string"):
        return Str("")
    if n == "std::map":
        return MapV()
    if n == "std::pair":
        return Pair([it.zero_value(a["t"]) for a in rec["args"] if "t" in a])
    if n == "std::function":
        return NULL
    return None


def blank(it, rec, tid, name):
    v = default_value(it, rec, tid)
    if v is not None:
        return v
    return it.mkrec(it.ty(tid)["rec"], tid, T.fresh_name("blank_" + name), ())


def matrix(it, r, c, fn=None):
    return Arr(r, lambda i: Arr(c, (lambda j: FZERO) if fn is None else (lambda j: fn(i, j))), cols=c, kind="mat")


def from_list(it, rec, e):
    n = rec["name"]
    if n in TENSOR:
        vs = [it.rv(a) for a in e["args"]]
        rank, dim, sym = tensor_shape(it, rec)
        return Tens(rank, dim, [as_f(v) for v in vs] if vs else [FZERO] * dim ** rank, sym)
    if n in ("std::vector", "std::array", "std::initializer_list"):
        if n == "std::array" and len(e["args"]) == 1 and e["args"][0]["k"] == "initlist":
            e = e["args"][0]
        vs = [it.rv(a) for a in e["args"]]
        return list_arr(vs)
    if n in ("std::pair", "std::tuple"):
        return Pair([it.rv(a) for a in e["args"]])
    return None


def list_arr(vs, kind="vec"):
    if not vs:
        raise Unsupported("empty list")
    a = Arr(I(len(vs)), lambda i: vs[0] if len(vs) == 1 else select(vs, i), kind=kind)
    return a


def select(vs, i):
    if i.op == "num":
        k = int(i.val)
        if 0 <= k < len(vs):
            return vs[k]
        raise Unsupported("index out of range")
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1):
        r = merge(T.eq(i, I(k)), vs[k], r)
    return r


def as_f(v):
    if isinstance(v, F):
        return v
    if isinstance(v, T.Term):
        if v.sort == "B":
            return F(T.ite(v, T.ONE, T.ZERO))
        return F(T.i2r(v))
    raise Unsupported("number from " + type(v).__name__)


def construct(it, e, f, rec):
    n = rec["name"]
    v = linalg.construct(it, e, f, rec)
    if v is not None:
        return v
    v = fem.construct(it, e, f, rec)
    if v is not None:
        return v
    args = e["args"]
    while args and args[-1]["k"] == "zero" and False:
        args = args[:-1]
    if n in TENSOR:
        rank, dim, sym = tensor_shape(it, rec)
        if not args:
            return Tens(rank, dim, [FZERO] * dim ** rank, sym)
        vs = [it.rv(a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Tens):
            v = vs[0]
            if sym and not v.sym:
                # deal.II requires (and in debug mode checks) symmetry
                it.assumed.add("SymmetricTensor(Tensor) is applied to symmetric tensors")
                return mk_tens(rank, dim, lambda ix: v.c[lin(ix, dim)], True)
            return Tens(rank, dim, v.c, sym)
        if n == "dealii::Point" and all(isinstance(v, (F, T.Term)) for v in vs) and len(vs) == dim:
            return Tens(1, dim, [as_f(v) for v in vs])
        if len(vs) == 1 and isinstance(vs[0], Arr):
            a = vs[0]
            if rank == 1:
                return Tens(1, dim, [as_f(arr_get(a, I(i))) for i in range(dim)])
            if rank == 2:
                return Tens(2, dim, [as_f(arr_get(arr_get(a, I(i)), I(j))) for i in range(dim) for j in range(dim)])
        raise Unsupported("constructor of " + n)
    if n in VECTOR and n not in ("std::set",):
        kind = "lavec" if n == "dealii::Vector" else "vec"
        if not args:
            return default_value(it, rec, e["t"])
        vs = [it.rv(a) for a in args]
        if isinstance(vs[0], Arr):
            return Arr(vs[0].n, vs[0].fn, vs[0].ups, vs[0].cols, kind)
        if isinstance(vs[0], T.Term) and n in ("std::vector", "dealii::Vector"):
            et = it.targ_type(rec, 0)
            if len(vs) > 1 and not isinstance(vs[1], Opq) and n == "std::vector":
                v = it.convert(vs[1], et)
                return Arr(vs[0], lambda i: v, kind=kind)
            z = elem_default(it, et)
            return Arr(vs[0], lambda i: z(), kind=kind)
        raise Unsupported("constructor of " + n)
    if n == "dealii::FullMatrix":
        if not args:
            return matrix(it, I(0), I(0))
        vs = [it.rv(a) for a in args]
        if isinstance(vs[0], Arr):
            return vs[0]
        if len(vs) == 1:
            return matrix(it, vs[0], vs[0])
        if isinstance(vs[0], T.Term) and isinstance(vs[1], T.Term):
            return matrix(it, vs[0], vs[1])
    if n in POINTER:
        if not args:
            return NULL
        v = it.rv(args[0])
        if isinstance(v, Ptr) or isinstance(v, Opq):
            return v
        raise Unsupported("pointer from " + type(v).__name__)
    if n == "std::function":
        if not args:
            return NULL
        return it.rv(args[0])
    if n == "__gnu_cxx::__normal_iterator" and len(args) == 1:
        v = it.rv(args[0])
        if isinstance(v, (Iter, Opq)):
            return v
    if n == "std::set" and not args:
        return Opq(T.sym("no material", "O"), "materials")
    if n == "std::set" and args:
        v = it.rv(args[0])
        if isinstance(v, Opq):
            return v
    if n in ("std::basic_string", "std::string"):
        if not args:
            return Str("")
        v = it.rv(args[0])
        return v if isinstance(v, Str) else Str(None)
    if n == "std::basic_ifstream" and args:
        v = it.rv(args[0])
        if isinstance(v, Str) and v.s is not None:
            return open_file(v.s)
    if n in ("std::basic_stringstream", "std::basic_istringstream") and args:
        v = it.rv(args[0])
        if isinstance(v, Text) and v.col is None:
            return Opq(T.fresh("fields", "O"), "fields", {"line": v, "n": 0})
    if n in ("std::pair", "std::tuple"):
        if not args:
            return default_value(it, rec, e["t"])
        vs = [it.rv(a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Pair):
            return vs[0]
        return Pair([it.convert(v, a["t"]) for v, a in zip(vs, rec["args"])])
    if n == "std::map":
        if not args:
            return MapV()
        v = it.rv(args[0])
        if isinstance(v, MapV):
            return v
    if rec.get("mine"):
        return None
    # other library objects: known only through what is done to them
    if f.get("copy") or f.get("move"):
        return it.rv(args[0])
    for a in args:
        it.ev(a)
    return Opq(T.fresh("obj", "O"), n)


def elem_default(it, tid):
    t = it.ty(tid)
    if t["k"] in ("float", "int", "bool", "enum", "ptr"):
        return lambda: it.zero_value(tid)
    memo = []

    def f():
        if not memo:
            memo.append(default_object(it, tid))
        return memo[0]
    return f


def default_object(it, tid):
    t = it.ty(tid)
    if t["k"] == "rec":
        rec = it.p.recs[t["rec"]]
        v = default_value(it, rec, tid)
        if v is not None:
            return v
        if rec["mine"]:
            # find the default constructor
            for i, f in enumerate(it.p.funs):
                if f and f.get("ctor") and f.get("rec") == t["rec"] and not f["params"] and "body" in f:
                    obj = it.alloc(it.blank(t["rec"]))
                    it.call_fun(i, [], obj, None)
                    return it.load(obj)
            return it.mkval(it.rec_type(t["rec"]), T.fresh_name("arb"))
    return it.zero_value(tid)


# ---------------------------------------------------------------- algebra
def lin(ix, dim):
    r = 0
    for i in ix:
        r = r * dim + i
    return r


def contract(a, b):
    """single contraction over the last index of a and the first of b"""
    d = a.dim
    na, nb = d ** (a.rank - 1), d ** (b.rank - 1)
    out = []
    for i in range(na):
        for j in range(nb):
            s = FZERO
            for k in range(d):
                s = fadd(s, fmul(a.c[i * d + k], b.c[k * nb + j]))
            out.append(s)
    r = a.rank + b.rank - 2
    return out[0] if r == 0 else Tens(r, d, out)


def dcontract(a, b):
    d = a.dim
    na, nb = d ** (a.rank - 2), d ** (b.rank - 2)
    out = []
    for i in range(na):
        for j in range(nb):
            s = FZERO
            for k in range(d * d):
                s = fadd(s, fmul(a.c[i * d * d + k], b.c[k * nb + j]))
            out.append(s)
    r = a.rank + b.rank - 4
    return out[0] if r == 0 else Tens(r, d, out, True)


def outer(a, b):
    return Tens(a.rank + b.rank, a.dim, [fmul(x, y) for x in a.c for y in b.c])


def tmap(fn, *ts):
    return Tens(ts[0].rank, ts[0].dim, [fn(*x) for x in zip(*[t.c for t in ts])], all(t.sym for t in ts))


def symmetrize(a):
    d = a.dim
    h = F(T.num("1/2"))
    c = [None] * (d * d)
    for i in range(d):
        for j in range(i, d):
            x = a.c[i * d + i] if i == j else fmul(h, fadd(a.c[i * d + j], a.c[j * d + i]))
            c[i * d + j] = c[j * d + i] = x
    return Tens(2, d, c, True)


def sumsq(v):
    s = FZERO
    for x in v.c:
        s = fadd(s, fmul(x, x))
    return s


def binop(it, op, a, b):
    if isinstance(a, (F, T.Term)) and isinstance(b, (F, T.Term)):
        return it.arith(op, a, b, None)
    if isinstance(a, Tens) and isinstance(b, Tens):
        if op == "+":
            return tmap(fadd, a, b)
        if op == "-":
            return tmap(fsub, a, b)
        if op == "*":
            if a.sym and b.sym:
                return dcontract(a, b)
            return contract(a, b)
        if op in ("==", "!="):
            c = T.and_(*[it.fcmp("==", x, y) for x, y in zip(a.c, b.c)])
            return c if op == "==" else T.not_(c)
    if isinstance(a, Tens) and isinstance(b, (F, T.Term)):
        b = as_f(b)
        if op == "*":
            return tmap(lambda x: fmul(x, b), a)
        if op == "/":
            if a.c and all(x.t is T.ZERO for x in a.c) and False:
                return a
            return tdiv(it, a, b)
    if isinstance(b, Tens) and isinstance(a, (F, T.Term)):
        a = as_f(a)
        if op == "*":
            return tmap(lambda x: fmul(a, x), b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.kind == "lavec":
        if op == "*":
            k = T.fresh_name("s")
            kk = T.sym(k, "I")
            x = fmul(arr_get(a, kk), arr_get(b, kk))
            return F(T.sum_(I(0), a.n, k, x.t))
    if isinstance(a, Iter) and isinstance(b, Iter):
        if op == "-":
            return T.sub(a.i, b.i)
        if op in ("==", "!=", "<"):
            c = T.eq(a.i, b.i) if op != "<" else T.lt(a.i, b.i)
            return T.not_(c) if op == "!=" else c
    if isinstance(a, Iter) and isinstance(b, T.Term):
        return Iter(a.loc, T.add(a.i, b) if op == "+" else T.sub(a.i, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
        return it.arith(op, a, b, None)
    if isinstance(a, Str) and isinstance(b, Str):
        if a.s is not None and b.s is not None:
            if op == "+":
                return Str(a.s + b.s)
            if op in ("==", "!="):
                return T.boolc((a.s == b.s) == (op == "=="))
        if op == "+":
            return Str(None)
        return T.fresh("strcmp", "B")
    if isinstance(a, Opq) and isinstance(b, Opq) and op in ("==", "!="):
        c = T.eq(a.key, b.key)
        return c if op == "==" else T.not_(c)
    if isinstance(a, Pair) and isinstance(b, Pair) and op in ("==", "!="):
        c = T.and_(*[binop(it, "==", x, y) for x, y in zip(a.v, b.v)])
        return c if op == "==" else T.not_(c)
    raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))


def tdiv(it, a, b):
    if it.nonzero(b.t):
        return tmap(lambda x: it.fdiv(x, b), a)
    out = []
    for x in a.c:
        out.append(it.fdiv(x, b))
    return Tens(a.rank, a.dim, out, a.sym)


MATH1 = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "erf", "asin", "acos"}


def note(name):
    used[name] = used.get(name, 0) + 1


# ------------------------------------------------------------------ files
STREAM = ("std::basic_ifstream", "std::basic_istream", "std::basic_ios", "std::basic_stringstream",
          "std::basic_istringstream", "std::basic_iostream")


def open_file(name):
    return Opq(T.fresh("file", "O"), "file", {"name": name, "read": False})


def find_call(it, node, short):
    """the call of `short` whose result is the value of the condition"""
    n = node
    while True:
        if n["k"] == "cast" or n["k"] in ("bind", "temp"):
            n = n["e"]
        elif n["k"] == "mcall":
            n = n["obj"]
        elif n["k"] == "call":
            return n if last(it.p.funs[n["f"]]["name"]) == short else None
        else:
            return None


def columns(name, row):
    return T.sym("columns(%s)" % name, "I", (row,))


def getline(it, A):
    l = it.lv(A[0])
    v = it.load(l)
    sep = it.rv(A[2]) if len(A) > 2 else None
    if isinstance(v, Opq) and v.cls == "fields" and sep is not None and sep.op == "num" and sep.val == ord(","):
        line, n = v.f["line"], v.f["n"]
        it.store(it.lv(A[1]), Text(line.file, line.row, n))
        it.store(l, Opq(v.key, v.cls, {"line": line, "n": n + 1}))
        it.nonneg(columns(line.file, line.row))
        return l
    raise Unsupported("getline")


def stream_method(it, e, f, rec, o, m, A):
    v = it.val(o)
    if v.cls == "file":
        there = T.sym("exists(%s)" % v.f["name"], "B")
        if m in ("operator bool", "is_open", "good"):
            return there
        if m in ("operator!", "fail"):
            return T.not_(there)
        if m == "close":
            return None
        if m == "open" and isinstance(o, Loc):
            n = it.rv(A[0])
            if isinstance(n, Str) and n.s is not None:
                it.store(o, open_file(n.s))
                return None
    elif m == "operator bool":
        line, n = v.f["line"], v.f["n"]
        return T.le(I(n), columns(line.file, line.row))
    raise Unsupported("stream method " + m)


def text_method(it, o, v, m, vs):
    if m in ("begin", "end", "cbegin", "cend"):
        return Iter(o, I(0) if "begin" in m else T.sym("length", "I"))
    if m == "erase" and len(vs) == 2 and isinstance(vs[0], Opq) and vs[0].cls == "removed":
        it.store(o, Text(v.file, v.row, v.col, True))
        return vs[1]
    if m == "empty" and v.col is None:
        # a line before the end of the data is not blank
        b = T.sym(("blank(%s)" if v.bare else "empty(%s)") % v.file, "B", (v.row,))
        return b
    raise Unsupported("string method " + m)


# ------------------------------------------------------------- free calls
MANIPULATORS = ("std::setw", "std::setprecision", "std::setfill", "std::left", "std::right", "std::fixed",
                "std::scientific", "std::endl", "std::flush")


def call(it, e, f, name):
    if name.startswith("verify::"):
        r = intrinsic(it, e, f, name[8:])
        if r is not NO:
            return r
        return NO
    if "body" in f and f.get("mine"):
        return NO
    n = last(name)
    A = e["args"]
    if n.startswith("operator"):
        return free_operator(it, e, f, name, n[8:].strip())
    short = n
    plain = name in (short, "std::" + short) or name.startswith("std::") or name.startswith("boost::")
    if name == "__builtin_expect":
        return it.rv(A[0])
    if name in MANIPULATORS:
        return Opq(T.sym("manipulator", "O"), "manipulator")
    r = linalg.call(it, e, f, name)
    if r is not NO:
        return r
    if plain:
        if short in MATH1:
            note("std::" + short)
            return it.func(short, as_f(it.rv(A[0])))
        if short == "sqrt":
            note("std::sqrt")
            return it.fsqrt(as_f(it.rv(A[0])))
        if short in ("fabs", "abs"):
            v = it.rv(A[0])
            note("std::" + short)
            if isinstance(v, F):
                return it.fabs(v)
            return T.abs_(v)
        if short == "pow":
            note("std::pow")
            return it.fpow(as_f(it.rv(A[0])), as_f(it.rv(A[1])))
        if short in ("max", "min", "fmax", "fmin"):
            note("std::" + short)
            vs = [it.rv(a) for a in A]
            if len(vs) == 1 and isinstance(vs[0], Arr):
                a = vs[0]
                vs = [arr_get(a, I(i)) for i in range(int(a.n.val))]
            r = vs[0]
            for v in vs[1:]:
                r = minmax(it, short[-3:], r, v)
            return r
        if short == "isnan":
            v = it.rv(A[0])
            return v.nan
        if short == "isfinite":
            v = it.rv(A[0])
            return T.and_(T.not_(v.nan), T.not_(v.und))
        if short == "isinf":
            v = it.rv(A[0])
            return T.and_(T.not_(v.nan), v.und)
        if short == "modf":
            v, q = as_f(it.rv(A[0])), it.rv(A[1])
            w = F(T.i2r(trunc(it, v)), v.nan, v.und)
            it.store(q.loc, w)
            return fsub(v, w)
        if short in ("floor", "ceil", "round", "trunc"):
            v = it.rv(A[0])
            if short == "floor":
                return F(T.i2r(T.app("floor", v.t, sort="I")))
            if short == "ceil":
                return F(T.neg(T.i2r(T.app("floor", T.neg(v.t), sort="I"))))
            raise Unsupported(short)
        if short == "fmod":
            raise Unsupported("fmod")
        if short in ("move", "forward", "as_const", "ref", "cref"):
            return it.ev(A[0])
        if short == "swap":
            a, b = it.lv(A[0]), it.lv(A[1])
            x, y = it.load(a), it.load(b)
            it.store(a, y)
            it.store(b, x)
            return None
        if short == "make_pair":
            return Pair([it.rv(a) for a in A])
        if short in ("get",):
            m = re.search(r"get<(\d+)", f["full"])
            v = it.ev(A[0])
            if m:
                i = int(m.group(1))
                if isinstance(v, Loc):
                    return v.at(("pair", i)) if isinstance(it.load(v), Pair) else v.at(I(i))
                return v.v[i]
        if short == "getline":
            return getline(it, A)
        if short in ("stod", "stof", "strtod"):
            v = it.rv(A[0])
            if isinstance(v, Text) and v.col is not None:
                return F(T.sym("entry(%s)" % v.file, "R", (v.row, I(v.col))))
            raise Unsupported(short)
        if short == "remove" and len(A) == 3:
            a, c = it.rv(A[0]), it.rv(A[2])
            if isinstance(a, Iter) and isinstance(it.load(a.loc), Text) and c.op == "num" and c.val == 32:
                return Opq(T.fresh("removed", "O"), "removed")
            raise Unsupported(short)
        if short in ("fill",):
            a, b = it.rv(A[0]), it.rv(A[1])
            x = it.rv(A[2])
            arr = it.load(a.loc)
            cond = lambda i: T.and_(T.le(a.i, i), T.lt(i, b.i))
            it.store(a.loc, Arr(arr.n, lambda i: merge(cond(i), x, arr_get(arr, i)), (), arr.cols, arr.kind))
            return None
        if short == "accumulate":
            return accumulate(it, A)
        if short in ("begin", "end", "cbegin", "cend"):
            l = it.lv(A[0])
            v = it.load(l)
            if isinstance(v, Arr):
                return Iter(l, I(0) if short.endswith("begin") else v.n)
        if short in ("min_element", "max_element"):
            a, b = it.rv(A[0]), it.rv(A[1])
            return extremum(it, short, a, b)
        if short in ("to_string",):
            return Str(None)
        if short == "make_shared" or short == "make_unique":
            return make_shared(it, e, f)
        if short in ("isatty", "printf", "fprintf", "flush", "endl"):
            return None
        if short in ("numeric_limits",):
            pass
    if name.startswith("std::numeric_limits"):
        return limits(it, name, short)
    if name == "dealii::Utilities::MPI::this_mpi_process":
        r = T.sym("mpi_rank", "I")
        it.nonneg(r)
        return r
    if name == "dealii::Utilities::MPI::compute_set_union":
        v = it.rv(A[0])
        if isinstance(v, Opq) and v.cls == "materials":
            it.assumed.add("the set collected from the material ids of the cells has as many entries as there "
                           "are different material ids (sampled on the compiled code)")
            return v
        raise Unsupported(short)
    if name.startswith("dealii::"):
        r = dealii_call(it, e, f, name, short)
        if r is not NO:
            return r
    return NO


def limits(it, name, short):
    if "double" in name:
        if short == "epsilon":
            return F(T.num(2) if False else T.ipow(T.num(2), -52))
        if short == "max":
            return F(T.sym("DBL_MAX"))
        if short == "lowest":
            return F(T.neg(T.sym("DBL_MAX")))
        if short == "min":
            return F(T.sym("DBL_MIN"))
        if short == "quiet_NaN" or short == "signaling_NaN":
            return F(T.ZERO, T.TRUE)
        if short == "infinity":
            return F(T.fresh("inf"), T.FALSE, T.TRUE)
    if short == "max":
        return T.sym("INT_MAX(%s)" % name, "I")
    raise Unsupported(name)


def make_shared(it, e, f):
    # shared_ptr<X>: X is the first template argument of the return type
    rec = it.rec_of(f["ret"])
    tid = it.targ_type(rec, 0)
    t = it.ty(tid)
    r = it.p.recs[t["rec"]] if t["k"] == "rec" else None
    vals = [it.ev(a) for a in e["args"]]
    if r is not None and r["mine"]:
        cands = [i for i, g in enumerate(it.p.funs) if g and g.get("ctor") and g.get("rec") == t["rec"]
                 and "body" in g and len(g["params"]) == len(vals)]
        if len(cands) == 1:
            obj = it.alloc(it.blank(t["rec"]))
            it.call_fun(cands[0], vals, obj, None)
            return Ptr(obj)
        raise Unsupported("make_shared of " + r["name"])
    if not vals:
        return Ptr(it.alloc(default_object(it, tid)))
    raise Unsupported("make_shared")


def accumulate(it, A):
    a, b = it.rv(A[0]), it.rv(A[1])
    init = it.rv(A[2])
    if len(A) == 3 and isinstance(a, Iter):
        arr = it.load(a.loc)
        k = T.fresh_name("s")
        x = arr_get(arr, T.sym(k, "I"))
        if isinstance(x, F) and isinstance(init, F):
            return F(T.add(init.t, T.sum_(a.i, b.i, k, x.t)))
    raise Unsupported("accumulate")


def extremum(it, short, a, b):
    """iterator to an extremal element: characterised by its defining
    property over the accessed elements"""
    arr = it.load(a.loc)
    if a.i.op == "num" and b.i.op == "num":
        lo, hi = int(a.i.val), int(b.i.val)
        best = I(lo)
        bv = arr_get(arr, best)
        for k in range(lo + 1, hi):
            x = arr_get(arr, I(k))
            c = it.fcmp("<", x, bv) if short == "min_element" else it.fcmp("<", bv, x)
            best = T.ite(c, I(k), best)
            bv = merge(c, x, bv)
        return Iter(a.loc, best)
    raise Unsupported(short + " over a symbolic range")


def minmax(it, which, a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term) and a.sort == "I":
        return T.max_(a, b) if which == "max" else T.min_(a, b)
    a, b = as_f(a), as_f(b)
    c = it.fcmp("<", a, b) if which == "max" else it.fcmp("<", b, a)
    k = it.known(c)
    if k is not None:
        return b if k else a
    if a.d is not None or b.d is not None:
        return b if it.decide(c) else a
    return merge(c, b, a)


def free_operator(it, e, f, name, op):
    A = e["args"]
    if op == "<<":
        v = it.ev(A[0])
        it.ev(A[1])
        return v
    if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=") and len(A) == 2:
        note(name)
        x, y = it.rv(A[0]), it.rv(A[1])
        if isinstance(x, Opq) and x.cls == "map iterator":
            if y.key.val != "end" and x.key.val != "end":
                raise Unsupported("comparison of iterators")
            r = T.not_(T.or_(x.f["found"], y.f["found"]))
            return r if op == "==" else T.not_(r)
        if isinstance(x, Opq) and x.cls == "linop":
            return linalg.linop(it, op, x, y)
        return binop(it, op, x, y)
    if op in ("-", "+") and len(A) == 1:
        v = it.rv(A[0])
        if isinstance(v, Tens):
            return v if op == "+" else tmap(fneg, v)
    if op in ("+=", "-=", "*=", "/="):
        l = it.lv(A[0])
        it.store(l, binop(it, op[0], it.load(l), it.rv(A[1])))
        return l
    if op == "=":
        pass
    return NO


def dealii_call(it, e, f, name, n):
    A = e["args"]
    if name == "dealii::Utilities::MPI::sum":
        it.assumed.add("sums over processes are taken with one process")
        return it.rv(A[0])
    if name.startswith("dealii::deal_II_exceptions::internals::issue_error") or "issue_error" in name:
        from interp import ThrowEx
        raise ThrowEx("AssertThrow at " + it.where(e))
    if n in ("outer_product",):
        note(name)
        return outer(it.rv(A[0]), it.rv(A[1]))
    if n == "symmetrize":
        note(name)
        return symmetrize(it.rv(A[0]))
    if n == "unit_symmetric_tensor":
        note(name)
        rec = it.rec_of(f["ret"])
        _, d, _ = tensor_shape(it, rec)
        return Tens(2, d, [FONE if i == j else FZERO for i in range(d) for j in range(d)], True)
    if n == "identity_tensor":
        rec = it.rec_of(f["ret"])
        _, d, _ = tensor_shape(it, rec)
        h = T.num("1/2")
        return mk_tens(4, d, lambda x: F(T.num((int(x[0] == x[2] and x[1] == x[3]) + int(x[0] == x[3] and x[1] == x[2]))) if False
                                         else T.mul(h, T.num(int(x[0] == x[2] and x[1] == x[3]) + int(x[0] == x[3] and x[1] == x[2])))), True)
    if n == "scalar_product":
        note(name)
        a, b = it.rv(A[0]), it.rv(A[1])
        s = FZERO
        for x, y in zip(a.c, b.c):
            s = fadd(s, fmul(x, y))
        return s
    if n == "cross_product_3d":
        note(name)
        a, b = it.rv(A[0]).c, it.rv(A[1]).c
        x = lambda i, j: fsub(fmul(a[i], b[j]), fmul(a[j], b[i]))
        return Tens(1, 3, [x(1, 2), x(2, 0), x(0, 1)])
    if n == "cross_product_2d":
        note(name)
        a = it.rv(A[0]).c
        return Tens(1, 2, [a[1], fneg(a[0])])
    if n == "transpose":
        note(name)
        a = it.rv(A[0])
        d = a.dim
        return Tens(2, d, [a.c[j * d + i] for i in range(d) for j in range(d)], a.sym)
    if n == "trace":
        note(name)
        a = it.rv(A[0])
        s = FZERO
        for i in range(a.dim):
            s = fadd(s, a.c[i * a.dim + i])
        return s
    if n == "deviator":
        a = it.rv(A[0])
        d = a.dim
        s = FZERO
        for i in range(d):
            s = fadd(s, a.c[i * d + i])
        s = fmul(s, F(T.num("1/%d" % d)))
        return Tens(2, d, [fsub(a.c[i * d + j], s) if i == j else a.c[i * d + j] for i in range(d) for j in range(d)], a.sym)
    if n == "determinant":
        a = it.rv(A[0])
        return F(det([[x.t for x in a.c[i * a.dim:(i + 1) * a.dim]] for i in range(a.dim)]))
    if n == "invert":
        raise Unsupported("invert")
    if n == "contract" and f["full"].split("(")[0].count("contract<"):
        mm = re.search(r"contract<(\d+), *(\d+)", f["full"])
        a, b = it.rv(A[0]), it.rv(A[1])
        if mm and a.rank <= 2 and b.rank <= 2:
            note(name)
            # bring the contracted indices to the inside
            tr = lambda t: Tens(2, t.dim, [t.c[j * t.dim + i] for i in range(t.dim) for j in range(t.dim)])
            if a.rank == 2 and mm.group(1) == "0":
                a = tr(a)
            if b.rank == 2 and mm.group(2) == "1":
                b = tr(b)
            return contract(a, b)
    if n == "contract3" or n == "double_contract" or n == "contract":
        raise Unsupported(n)
    if n in ("fixed_power",):
        m = re.search(r"fixed_power<(\d+)", f["full"])
        return it.fpow(as_f(it.rv(A[0])), F(T.num(int(m.group(1)))))
    if n in ("int_to_string", "to_string"):
        return Str(None)
    return NO


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = T.ZERO
    for j in range(len(m)):
        x = T.mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]]))
        r = T.add(r, x) if j % 2 == 0 else T.sub(r, x)
    return r


# ---------------------------------------------------------- member calls
def mcall(it, e, f, rec, o):
    n = rec["name"]
    m = last(f["name"])
    A = e["args"]
    r = linalg.mcall(it, e, f, rec, o, m, A)
    if r is not NO:
        return r
    r = fem.mcall(it, e, f, rec, o, m, A)
    if r is not NO:
        return r
    if n in TENSOR:
        return tensor_method(it, e, f, rec, o, m, A)
    if n == "std::set":
        v = it.val(o)
        if isinstance(v, Opq) and v.cls == "materials":
            return set_method(it, o, v, m, [it.rv(a) for a in A])
    if n in VECTOR or n.startswith("std::_Vector_base"):
        return vector_method(it, e, f, rec, o, m, A)
    if n in MATRIX:
        return matrix_method(it, e, f, rec, o, m, A)
    if n in POINTER:
        return pointer_method(it, e, f, rec, o, m, A)
    if n in ("__gnu_cxx::__normal_iterator",) or n.startswith("std::_List"):
        return iter_method(it, e, f, rec, o, m, A)
    if n in ("std::pair", "std::tuple") and m == "operator=":
        it.store(o, it.rv(A[0]))
        return o
    if n == "std::map" or n.startswith("std::_Rb_tree"):
        return map_method(it, e, f, rec, o, m, A)
    if n in ("std::basic_string", "std::string"):
        return string_method(it, e, f, rec, o, m, A)
    if n == "std::function" and m == "operator=":
        it.store(o, it.rv(A[0]))
        return o
    if n in STREAM:
        w = it.val(o)
        if isinstance(w, Opq) and w.cls in ("file", "fields"):
            return stream_method(it, e, f, rec, o, m, A)
    if n == "dealii::ParameterHandler":
        return parameter_handler(it, e, f, o, m, A)
    if n in ("std::basic_ostream", "dealii::ConditionalOStream", "std::basic_ios", "std::ios_base",
             "std::basic_ofstream", "dealii::TableHandler", "dealii::TimerOutput", "dealii::TimerOutput::Scope"):
        vs = [it.ev(a) for a in A]
        v = it.val(o)
        if n == "dealii::TableHandler" and m == "add_value" and it.count_rows and isinstance(v, Opq):
            s = it.rv(A[0])
            if not isinstance(s, Str) or s.s is None:
                raise Unsupported("column of a table")
            d = dict(v.f)
            d["~rows:" + s.s] = T.add(d.get("~rows:" + s.s, T.num(0, "I")), T.num(1, "I"))
            it.store(o, Opq(v.key, v.cls, d))
        t = it.ty(f["ret"])
        if t["k"] == "ref":
            return o if isinstance(o, Loc) else it.alloc(o)
        if t["k"] == "void":
            return None
        return it.mkval(f["ret"], T.fresh_name("io"))
    if n == "dealii::internal::TableBaseAccessors::Accessor" and m == "operator[]":
        i = it.rv(A[0])
        check_index(it, e, i, it.load(o).n)
        return o.at(i)
    if n == "dealii::internal::SymmetricTensorAccessors::Accessor" and m in ("operator[]", "operator()"):
        i = it.rv(A[0])
        return o.at(i) if isinstance(o, Loc) else it.tens_index(o, i)
    if n == "dealii::FunctionTime" and isinstance(o, Loc):
        if m == "get_time":
            return it.load(o.at("~time"))
        if m == "set_time":
            it.store(o.at("~time"), as_f(it.rv(A[0])))
            return None
        if m == "advance_time":
            it.store(o.at("~time"), fadd(it.load(o.at("~time")), as_f(it.rv(A[0]))))
            return None
    v = it.val(o)
    if isinstance(v, Opq):
        return opaque_method(it, e, f, rec, o, v, m, A)
    if isinstance(v, (Struct,)) and rec.get("mine"):
        return NO
    return NO


def parameter_handler(it, e, f, o, m, A):
    """the entries by their full path; the current subsection is concrete"""
    v = it.val(o)
    if not isinstance(v, Opq):
        raise Unsupported("parameter handler")
    d = dict(v.f)
    path = d.get("~path", Str(""))
    if m in ("print_parameters", "parse_input", "parse_input_from_string", "log_parameters"):
        raise Unsupported("parameter handler " + m)
    vs = [it.rv(a) for a in (A if m in ("enter_subsection", "set") else A[:2] if m == "declare_entry" else A[:1])]
    if m not in ("leave_subsection", "get_current_path") and (not vs or not isinstance(vs[0], Str) or vs[0].s is None):
        raise Unsupported("parameter name")
    if m == "enter_subsection":
        d["~path"] = Str(path.s + vs[0].s + "/")
        it.store(o, Opq(v.key, v.cls, d))
        return None
    if m == "leave_subsection":
        if not path.s:
            from interp import ThrowEx
            raise ThrowEx("leave_subsection at the top level")
        d["~path"] = Str(path.s[:path.s[:-1].rfind("/") + 1])
        it.store(o, Opq(v.key, v.cls, d))
        return None
    if m == "get_current_path":
        return Str(path.s)
    key = path.s + vs[0].s
    if m == "declare_entry":
        if key not in d:
            d[key] = vs[1] if isinstance(vs[1], Str) else Str(None)
            it.store(o, Opq(v.key, v.cls, d))
        return None
    if key not in d:
        from interp import ThrowEx
        raise ThrowEx("undeclared parameter " + key)
    x = d[key]
    if m == "set":
        d[key] = vs[1]
        it.store(o, Opq(v.key, v.cls, d))
        return None
    note("dealii::ParameterHandler")
    if m == "get":
        if isinstance(x, Str):
            return x
        raise Unsupported("text of a number")
    if m == "get_double":
        if isinstance(x, Str):
            return F(T.num(Fraction(x.s.strip())))
        return as_f(x)
    if m == "get_integer":
        if isinstance(x, Str):
            return I(int(x.s))
        if isinstance(x, T.Term) and x.sort == "I":
            return x
    if m == "get_bool":
        if isinstance(x, Str):
            return T.boolc(x.s.strip() in ("true", "yes", "on"))
        if isinstance(x, T.Term) and x.sort == "B":
            return x
    raise Unsupported("parameter handler " + m)


def opaque_method(it, e, f, rec, o, v, m, A):
    t = it.ty(f["ret"])
    if rec["name"] == "gCP::CrystalsData":
        r = crystals_observer(it, e, f, rec, v, m, [it.rv(a) for a in A])
        if r is not NO:
            return it.alloc(r) if t["k"] == "ref" else r
    if not f.get("const"):
        if m == "operator=" and isinstance(o, Loc):
            it.store(o, it.rv(A[0]))
            return o
        raise Unsupported("modifying method of opaque " + rec["name"] + "::" + m)
    args = []
    for a in A:
        x = it.rv(a)
        args.extend(flatten(x))
    it.assumed.add("%s::%s is a function of its arguments and the object" % (rec["name"], m))
    return it.mkval(f["ret"], "%s::%s" % (rec["name"].split("::")[-1], m), (v.key,) + tuple(args))


def crystals_observer(it, e, f, rec, v, m, a):
    """what C12 proves about CrystalsData, used by its callers"""
    d = it.targ_int(rec, 0)
    key = v.key

    def tens(nm, rank, dd, ix):
        n = dd ** rank
        return Tens(rank, dd, [F(T.sym("crystals." + nm, "R", ix + tuple(I(x) for x in (divmod(i, dd) if rank == 2 else (i,)))))
                               for i in range(n)])

    def dot(x, y):
        s = T.ZERO
        for p, q in zip(x.c, y.c):
            s = T.add(s, T.mul(p.t, q.t))
        return s
    nc, ns = T.sym("n_crystals", "I"), T.sym("n_slips", "I")
    it.assumed.add("CrystalsData observers satisfy their contract (proved as C12)")

    def inside(ix):
        for i, b in zip(ix, (nc, ns)):
            if not (it.known(T.le(I(0), i)) is True and it.known(T.lt(i, b)) is True):
                it.add_obl("index of a crystal or slip system in range", T.and_(T.le(I(0), i), T.lt(i, b)), it.where(e))

    def direction(c, s):
        return tens("slip_direction", 1, d, (c, s))

    def normal(c, s):
        return tens("slip_normal", 1, d, (c, s))
    prover.axioms["crystals.slip_direction"] = lambda a: [unit_length(direction(a[0], a[1]))]
    prover.axioms["crystals.slip_normal"] = lambda a: [
        unit_length(normal(a[0], a[1])), T.eq(dot(normal(a[0], a[1]), direction(a[0], a[1])), T.ZERO)]

    def orthogonal(c, s):
        if d == 2:
            return Tens(1, 2, [FZERO, FZERO])
        n, r = normal(c, s), direction(c, s)
        return Tens(1, 3, [fsub(fmul(n.c[(i + 1) % 3], r.c[(i + 2) % 3]),
                                fmul(n.c[(i + 2) % 3], r.c[(i + 1) % 3])) for i in range(3)])

    def schmid(c, s):
        return outer(direction(c, s), normal(c, s))
    if m == "is_initialized":
        return T.TRUE
    if m == "get_n_crystals":
        return nc
    if m == "get_n_slips":
        return ns
    inside(a)
    if m == "get_slip_direction":
        return direction(*a)
    if m == "get_slip_normal":
        return normal(*a)
    if m == "get_slip_orthogonal":
        return orthogonal(*a)
    if m == "get_slip_directions":
        return Arr(ns, lambda s: direction(a[0], s))
    if m == "get_slip_normals":
        return Arr(ns, lambda s: normal(a[0], s))
    if m == "get_schmid_tensor":
        return schmid(*a)
    if m == "get_symmetrized_schmid_tensor":
        return symmetrize(schmid(*a))
    if m == "get_symmetrized_schmid_tensors":
        return Arr(ns, lambda s: symmetrize(schmid(a[0], s)))
    if m in ("get_rotation_tensor", "get_3d_rotation_tensor"):
        dd = 3 if m == "get_3d_rotation_tensor" else d
        if d == 2:
            cth, sth = T.sym("crystals.cos", "R", (a[0],)), T.sym("crystals.sin", "R", (a[0],))
            prover.axioms["crystals.cos"] = prover.axioms["crystals.sin"] = lambda a: [
                T.eq(T.add(*[T.mul(x, x) for x in (T.sym("crystals.cos", "R", a), T.sym("crystals.sin", "R", a))]), T.ONE)]
            r = {(0, 0): cth, (0, 1): T.neg(sth), (1, 0): sth, (1, 1): cth, (2, 2): T.ONE}
            return Tens(2, dd, [F(r.get(divmod(i, dd), T.ZERO)) for i in range(dd * dd)])
        r = tens("rotation", 2, 3, (a[0],))

        def orthonormal(a):
            t = tens("rotation", 2, 3, (a[0],))
            g = lambda i, j: t.c[3 * i + j].t
            dot = lambda i, j, h: T.add(*[T.mul(h(i, k), h(j, k)) for k in range(3)])
            return [T.eq(dot(i, j, h), T.ONE if i == j else T.ZERO)
                    for h in (g, lambda i, j: g(j, i)) for i in range(3) for j in range(i, 3)]
        prover.axioms["crystals.rotation"] = orthonormal
        return r
    return NO


def flatten(x, depth=0):
    if isinstance(x, F):
        return [x.t]
    if isinstance(x, T.Term):
        return [x]
    if isinstance(x, Tens):
        return [c.t for c in x.c]
    if isinstance(x, Opq):
        return [x.key]
    if isinstance(x, Ptr):
        return []
    if isinstance(x, Str):
        return [T.sym("str:%s" % x.s, "O")]
    if isinstance(x, Pair):
        return [t for y in x.v for t in flatten(y, depth)]
    if isinstance(x, Arr):
        # a sequence is determined by its length and the element at an
        # arbitrary position
        j = T.sym("$position%d" % depth, "I")
        inside = T.and_(T.le(T.IZERO, j), T.lt(j, x.n))
        return [x.n] + [T.ite(inside, t, T.num(0, t.sort)) if t.sort in "RI" else t
                        for t in flatten(arr_get(x, j), depth + 1)]
    raise Unsupported("argument of an opaque observer: " + type(x).__name__)


def tensor_method(it, e, f, rec, o, m, A):
    rank, dim, sym = tensor_shape(it, rec)
    note(rec["name"] + "::" + m)
    if m in ("operator[]", "operator()"):
        idx = []
        for a in A:
            i = it.rv(a)
            if isinstance(i, Arr):      # TableIndices
                raise Unsupported("TableIndices")
            idx.append(i)
        if isinstance(o, Loc):
            return o.at(*idx)
        r = o
        for i in idx:
            r = it.tens_index(r, i)
        return r
    if m in ("operator=",):
        v = it.rv(A[0])
        if isinstance(v, (F, T.Term)):
            v = Tens(rank, dim, [as_f(v)] * dim ** rank, sym)
        elif isinstance(v, Arr):
            v = construct_from_arr(v, rank, dim)
        else:
            v = Tens(rank, dim, v.c, sym)
        it.store(o, v)
        return o
    if m in ("operator+=", "operator-=", "operator*=", "operator/="):
        b = it.rv(A[0])
        a = it.load(o)
        it.store(o, Tens(rank, dim, binop(it, m[8], a, b).c, sym))
        return o
    v = it.val(o)
    if m == "operator-" and not A:
        return tmap(fneg, v)
    if m in ("operator+", "operator-", "operator*", "operator/"):
        return binop(it, m[8], v, it.rv(A[0]))
    if m in ("operator==", "operator!="):
        return binop(it, m[8:], v, it.rv(A[0]))
    if m == "norm":
        if rank == 1 and dim == 1:
            return it.fabs(v.c[0])
        return it.fsqrt(sumsq(v))
    if m == "norm_square":
        return sumsq(v)
    if m == "clear":
        it.store(o, Tens(rank, dim, [FZERO] * dim ** rank, sym))
        return None
    if m == "distance":
        b = it.rv(A[0])
        return it.fsqrt(sumsq(tmap(fsub, v, b)))
    if m == "square":
        return sumsq(v)
    if m.startswith("operator"):
        # conversion operator
        return v
    raise Unsupported("tensor method " + m)


def construct_from_arr(a, rank, dim):
    if rank == 1:
        return Tens(1, dim, [as_f(arr_get(a, I(i))) for i in range(dim)])
    raise Unsupported("tensor from array")


def vector_method(it, e, f, rec, o, m, A):
    lavec = rec["name"] == "dealii::Vector"
    kind = "lavec" if lavec else "vec"
    if m in ("operator[]", "operator()", "at"):
        i = it.rv(A[0])
        l = o if isinstance(o, Loc) else it.alloc(o)
        check_index(it, e, i, it.load(l).n)
        return l.at(i)
    if m == "operator=":
        v = it.rv(A[0])
        if isinstance(v, (F, T.Term)):
            a = it.load(o)
            z = as_f(v)
            v = Arr(a.n, lambda i: z, (), a.cols, kind)
        it.store(o, v)
        return o
    if m in ("size", "n_elements", "locally_owned_size"):
        return it.val(o).n
    if m == "empty":
        return T.eq0(it.val(o).n)
    if m in ("begin", "cbegin"):
        l = o if isinstance(o, Loc) else it.alloc(o)
        return Iter(l, I(0))
    if m in ("end", "cend"):
        l = o if isinstance(o, Loc) else it.alloc(o)
        return Iter(l, it.load(l).n)
    if m == "front":
        l = o if isinstance(o, Loc) else it.alloc(o)
        check_index(it, e, I(0), it.load(l).n)
        return l.at(I(0))
    if m == "back":
        l = o if isinstance(o, Loc) else it.alloc(o)
        n = T.sub(it.load(l).n, T.IONE)
        check_index(it, e, n, it.load(l).n)
        return l.at(n)
    if m in ("push_back", "emplace_back"):
        a = it.load(o)
        v = it.rv(A[0])
        et = it.targ_type(rec, 0)
        v = it.convert(v, et)
        b = arr_set(a, a.n, v)
        b.n = T.add(a.n, T.IONE)
        it.store(o, b)
        return None
    if m == "pop_back":
        a = it.load(o)
        it.store(o, Arr(T.sub(a.n, T.IONE), a.fn, a.ups, a.cols, a.kind))
        return None
    if m in ("reserve", "shrink_to_fit", "compress", "zero_out_ghost_values", "update_ghost_values"):
        for a in A:
            it.ev(a)
        return None
    if m == "clear":
        et = it.targ_type(rec, 0)
        it.store(o, Arr(I(0), lambda i: it.zero_value(et), kind=kind))
        return None
    if m in ("resize", "reinit", "assign"):
        n = it.rv(A[0])
        et = it.targ_type(rec, 0)
        old = it.load(o)
        if isinstance(n, Arr):
            n = n.n
        if lavec or m == "assign":
            if lavec and len(A) > 1:
                k = it.known(it.boolean(it.rv(A[1])))
                if k is not False:
                    raise Unsupported("reinit without zeroing")
            z = FZERO if lavec else it.rv(A[1])
            it.store(o, Arr(n, lambda i: z, kind=kind))
            return None
        z = (lambda v: (lambda: v))(it.convert(it.rv(A[1]), et)) if len(A) > 1 else elem_default(it, et)
        if old.n.op == "num" and old.n.val == 0:
            it.store(o, Arr(n, lambda i: z(), kind=kind))
            return None
        it.store(o, Arr(n, lambda i: merge(T.lt(i, old.n), arr_get(old, i), z()), kind=kind))
        return None
    if m in ("l2_norm", "norm_sqr", "linfty_norm", "sum", "l1_norm"):
        a = it.val(o)
        k = T.fresh_name("s")
        x = arr_get(a, T.sym(k, "I"))
        if m == "sum":
            return F(T.sum_(I(0), a.n, k, x.t))
        if m in ("l2_norm", "norm_sqr"):
            s = F(T.sum_(I(0), a.n, k, T.mul(x.t, x.t)))
            return s if m == "norm_sqr" else it.fsqrt(s)
        raise Unsupported(m)
    if m in ("operator+=", "operator-=", "operator*=", "operator/=") and lavec:
        a = it.load(o)
        b = it.rv(A[0])
        if isinstance(b, (F, T.Term)):
            b = as_f(b)
            if m[8] == "/":
                if not it.nonzero(b.t):
                    raise Unsupported("division of a vector by zero")
                b = it.fdiv(FONE, b)
            it.store(o, Arr(a.n, lambda i: fmul(arr_get(a, i), b), kind=kind))
            return o
        op = fadd if m[8] == "+" else fsub
        it.store(o, Arr(a.n, lambda i: op(arr_get(a, i), arr_get(b, i)), kind=kind))
        return o
    if m == "operator*" and lavec:
        return binop(it, "*", it.val(o), it.rv(A[0]))
    if m == "add" and lavec:
        a = it.load(o)
        vs = [it.rv(x) for x in A]
        if len(vs) == 2 and isinstance(vs[0], F) and isinstance(vs[1], Arr):
            it.store(o, Arr(a.n, lambda i: fadd(arr_get(a, i), fmul(vs[0], arr_get(vs[1], i))), kind=kind))
            return None
        if len(vs) == 4:
            it.store(o, Arr(a.n, lambda i: fadd(arr_get(a, i), fadd(fmul(vs[0], arr_get(vs[1], i)), fmul(vs[2], arr_get(vs[3], i)))), kind=kind))
            return None
    if m == "sadd" and lavec:
        a = it.load(o)
        vs = [it.rv(x) for x in A]
        if len(vs) == 3:
            it.store(o, Arr(a.n, lambda i: fadd(fmul(vs[0], arr_get(a, i)), fmul(vs[1], arr_get(vs[2], i))), kind=kind))
            return None
    if m == "equ" and lavec:
        a = it.load(o)
        vs = [it.rv(x) for x in A]
        it.store(o, Arr(a.n, lambda i: fmul(vs[0], arr_get(vs[1], i)), kind=kind))
        return None
    if m == "fill":
        a = it.load(o)
        v = it.rv(A[0])
        it.store(o, Arr(a.n, lambda i: v, (), a.cols, a.kind))
        return None
    raise Unsupported("vector method " + m)


def check_index(it, e, i, n):
    if it.lax:
        it.assumed.add("indices of vectors are within bounds in contracts marked as lax")
        return
    """indices stay within the bounds of the sequence"""
    if it.opts.get("no_bounds"):
        return
    c = T.and_(T.le(I(0), i), T.lt(i, n))
    if it.syntactic(c) is True or it.known(c) is True:
        it.bounds_ok = getattr(it, "bounds_ok", 0) + 1
        return
    it.add_obl("index within bounds", c, it.where(e))


def matrix_method(it, e, f, rec, o, m, A):
    if m == "operator()":
        i, j = it.rv(A[0]), it.rv(A[1])
        l = o if isinstance(o, Loc) else it.alloc(o)
        a = it.load(l)
        check_index(it, e, i, a.n)
        check_index(it, e, j, a.cols)
        return l.at(i, j)
    if m == "operator[]":
        l = o if isinstance(o, Loc) else it.alloc(o)
        i = it.rv(A[0])
        check_index(it, e, i, it.load(l).n)
        return l.at(i)
    if m == "operator=":
        v = it.rv(A[0])
        if isinstance(v, (F, T.Term)):
            a = it.load(o)
            z = as_f(v)
            v = matrix(it, a.n, a.cols, lambda i, j: z)
        it.store(o, v)
        return o
    if m in ("m", "n_rows"):
        return it.val(o).n
    if m in ("n", "n_cols"):
        return it.val(o).cols
    if m == "reinit":
        r = it.rv(A[0])
        c = it.rv(A[1]) if len(A) > 1 else r
        if isinstance(r, Arr):
            r, c = r.n, r.cols
        it.store(o, matrix(it, r, c))
        return None
    if m in ("operator*=", "operator/="):
        a, b = it.load(o), as_f(it.rv(A[0]))
        if m == "operator/=":
            b = it.fdiv(FONE, b)
        it.store(o, matrix(it, a.n, a.cols, lambda i, j: fmul(arr_get(arr_get(a, i), j), b)))
        return o
    if m in ("add", "equ") and len(A) == 2:
        a, b, x = it.load(o), as_f(it.rv(A[0])), it.rv(A[1])
        y = lambda i, j: fmul(b, arr_get(arr_get(x, i), j))
        it.store(o, matrix(it, a.n, a.cols, y if m == "equ" else lambda i, j: fadd(arr_get(arr_get(a, i), j), y(i, j))))
        return None
    if m in ("vmult", "Tvmult", "vmult_add", "Tvmult_add"):
        a, y, x = it.load(o), it.lv(A[0]), it.rv(A[1])
        t = m.startswith("T")
        n, c = (a.cols, a.n) if t else (a.n, a.cols)
        old = it.load(y)
        check_index(it, e, T.sub(n, T.IONE), old.n)
        check_index(it, e, T.sub(c, T.IONE), x.n)

        def entry(i):
            k = T.fresh_name("s")
            j = T.sym(k, "I")
            if c.op == "num":
                r = FZERO
                for q in range(int(c.val)):
                    q = I(q)
                    r = fadd(r, fmul(arr_get(arr_get(a, q), i) if t else arr_get(arr_get(a, i), q), arr_get(x, q)))
            else:
                g = fmul(arr_get(arr_get(a, j), i) if t else arr_get(arr_get(a, i), j), arr_get(x, j))
                r = F(T.sum_(I(0), c, k, g.t))
            return fadd(arr_get(old, i), r) if m.endswith("add") else r
        it.store(y, Arr(n, entry, kind=old.kind))
        return None
    if m == "size":
        raise Unsupported("matrix size")
    raise Unsupported("matrix method " + m)


def pointer_method(it, e, f, rec, o, m, A):
    v = it.val(o)
    if m in ("operator->", "get"):
        return v
    if m == "operator*":
        if isinstance(v, Ptr):
            if v.loc is None:
                raise Unsupported("null dereference")
            return v.loc
        return v
    if m in ("operator=",):
        it.store(o, it.rv(A[0]))
        return o
    if m in ("operator bool",):
        return T.boolc(not (isinstance(v, Ptr) and v.loc is None))
    if m == "reset":
        it.store(o, it.rv(A[0]) if A else NULL)
        return None
    if m.startswith("operator"):
        return v
    raise Unsupported("pointer method " + m)


def iter_method(it, e, f, rec, o, m, A):
    v = it.val(o)
    if not isinstance(v, Iter):
        raise Unsupported("iterator")
    if m == "operator*":
        return v.loc.at(v.i)
    if m == "operator->":
        return Ptr(v.loc.at(v.i))
    if m in ("operator++", "operator--"):
        d = T.IONE if m == "operator++" else T.neg(T.IONE)
        it.store(o, Iter(v.loc, T.add(v.i, d)))
        return o if not A else v
    if m in ("operator+", "operator-"):
        d = it.rv(A[0])
        return binop(it, m[8], v, d)
    if m in ("operator+=",):
        it.store(o, Iter(v.loc, T.add(v.i, it.rv(A[0]))))
        return o
    if m == "operator=":
        it.store(o, it.rv(A[0]))
        return o
    raise Unsupported("iterator method " + m)


def iter_deref(it, p):
    return p.loc.at(p.i)


def key_of(k):
    if isinstance(k, Str):
        return k.s
    return k


def map_method(it, e, f, rec, o, m, A):
    v = it.val(o)
    if isinstance(v, Arr) and m == "empty":
        return T.eq(v.n, I(0))
    if isinstance(v, Arr) and m in ("end", "cend"):
        return Opq(T.sym("end", "O"), "map iterator", {"found": T.FALSE})
    if isinstance(v, Arr) and m in ("find", "count", "contains"):
        k = it.rv(A[0])
        it.nonneg(v.n)
        found = T.sym("in " + T.show(v.n), "B", (k,))
        c = T.or_(T.not_(found), T.lt(I(0), v.n))
        it.levels[it.level_of(c)].assume(c)
        if m == "contains":
            return found
        if m == "count":
            return T.ite(found, I(1), I(0))


        def at():
            x = it.load(o.at(k)) if isinstance(o, Loc) else v.at(k)
            if not isinstance(x, Ptr):
                raise Unsupported("map iterator")
            it.assumed.add("keys looked up in a std::map of the solver are present")
            return x
        return Opq(T.sym("found", "O", (k,)), "map iterator", {"found": found, "key": k, "at": at})
    if isinstance(v, Arr) and m in ("operator[]", "at"):
        it.assumed.add("keys looked up in a std::map of the solver are present")
        k = it.rv(A[0])
        return o.at(k) if isinstance(o, Loc) else v.at(k)
    if not isinstance(v, MapV):
        raise Unsupported("map")
    if m in ("operator[]", "at"):
        k = it.rv(A[0])
        for i, (q, x) in enumerate(v.items):
            same = (isinstance(k, Str) and isinstance(q, Str) and k.s is not None and k.s == q.s) or \
                (isinstance(k, T.Term) and k is q)
            if same:
                l = it.heap_map_loc(o, i)
                return l
        raise Unsupported("map lookup")
    raise Unsupported("map method " + m)


def string_method(it, e, f, rec, o, m, A):
    v = it.val(o)
    vs = [it.rv(a) for a in A]
    if m == "operator=":
        it.store(o, vs[0] if isinstance(vs[0], Str) else Str(None))
        return o
    if isinstance(v, Text):
        return text_method(it, o, v, m, vs)
    if m in ("operator+=", "append"):
        it.store(o, Str(None))
        return o
    if m == "empty" and isinstance(v, Str) and v.s is not None:
        return T.boolc(v.s == "")
    if m == "compare" and isinstance(v, Str) and isinstance(vs[0], Str) and v.s is not None and vs[0].s is not None:
        return I(0 if v.s == vs[0].s else 1)
    t = it.ty(f["ret"])
    if t["k"] == "ref":
        return it.alloc(Str(None))
    return it.mkval(f["ret"], T.fresh_name("str"))


# -------------------------------------------------------------- misc hooks
def global_var(it, e):
    n = e["n"]
    key = ("global", e.get("qn", n))
    if n.split("::")[-1] in ("PI", "pi"):
        if key not in it.heap:
            it.heap[key] = F(T.sym("pi"))
        return Loc(key)
    if key not in it.heap:
        init = e.get("init")
        if init is not None:
            it.heap[key] = it.init_value(init, e["t"])
        else:
            it.heap[key] = it.mkval(e["t"], "global " + n)
    return Loc(key)


def opq_index(it, v, p):
    raise Unsupported("index into opaque " + v.cls)


def opq_field(it, b, o, e):
    """field of an opaque object: a function of its key"""
    v = it.mkval(e["t"], o.cls + "." + e["n"], (o.key,))
    if isinstance(b, Loc):
        f = dict(o.f)
        f[e["n"]] = v
        saved = it.writes
        it.writes = None
        it.store(b, Opq(o.key, o.cls, f))
        it.writes = saved
        return b.at(e["n"])
    return v


def as_sequence(it, v, r):
    if isinstance(v, Arr):
        l = r if isinstance(r, Loc) else it.alloc(v)
        return v.n, lambda i: l.at(i)
    if isinstance(v, Opq) and v.cls == "dealii::IteratorRange":
        n = T.sym("cells", "I", (v.key,))
        it.nonneg(n)
        return n, lambda i: it.alloc(Opq(T.sym("cell", "O", (v.key, i)), "cell"))
    if isinstance(v, Opq) and v.cls == "iota":
        lo, hi = v.f["lo"], v.f["hi"]
        return T.sub(hi, lo), lambda i: T.add(lo, i)
    return None


def opaque_for(it, s, loc, v0, op, bound_node, step):
    raise Unsupported("loop over opaque iterators")


def trunc(it, v):
    if v.t.op == "num":
        return I(int(v.t.val))
    if it.decide(T.lt0(v.t)):
        return T.neg(floor(it, T.neg(v.t)))
    return floor(it, v.t)


def floor(it, t):
    """floor, with the integer part of a sum split off"""
    if t.op == "add":
        u = T.num(t.val[1])
        for m, q in zip(t.args, t.val[0]):
            u = T.add(u, T.scale(q, distribute(m)))
        t = u
    else:
        t = distribute(t)
    whole, rest = I(0), t
    if t.op == "add":
        rest = T.num(t.val[1])
        for m, q in zip(t.args, t.val[0]):
            k = integral(m) if q.denominator == 1 else None
            if k is None:
                rest = T.add(rest, T.scale(q, m))
            else:
                whole = T.add(whole, T.scale(q, k))
    if rest.op != "num":
        r = prover.prove(it.pc(), T.and_(T.le0(T.neg(rest)), T.lt0(T.sub(rest, T.ONE))), 0.2)
        if r.status == "proved":
            return whole
    return T.add(whole, T.app("floor", rest, sort="I"))


def distribute(t):
    """a product with a sum as the sum of the products"""
    if t.op == "mul":
        for a, e in zip(t.args, t.val):
            if a.op == "add" and e == 1 and len(a.args) <= 6:
                rest = T.ONE
                for b, f in zip(t.args, t.val):
                    if b is not a:
                        rest = T.mul(rest, T.ipow(b, f))
                u = T.scale(a.val[1], rest)
                for m, q in zip(a.args, a.val[0]):
                    u = T.add(u, T.scale(q, T.mul(m, rest)))
                return u
    return t


def integral(m):
    if m.op == "app" and m.val == "i2r":
        return m.args[0]
    if m.op == "mul" and all(a.op == "app" and a.val == "i2r" and e > 0 for a, e in zip(m.args, m.val)):
        r = I(1)
        for a, e in zip(m.args, m.val):
            r = T.mul(r, T.ipow(a.args[0], e))
        return r
    return None


# -------------------------------------------------------------- intrinsics
def name_arg(it, a):
    v = it.rv(a)
    if not isinstance(v, Str) or v.s is None:
        raise Unsupported("name of an input")
    return v.s


def opt_index(it, A):
    r = []
    for a in A:
        i = it.rv(a)
        if i.op == "num" and i.val < 0:
            break
        r.append(i)
    return tuple(r)


def unit_length(v):
    s = T.ZERO
    for c in v.c:
        s = T.add(s, T.mul(c.t, c.t))
    return T.eq(s, T.ONE)


def condition(it, node):
    return it.merged(lambda: it.boolean(it.rv(node))) if it.lax else it.boolean(it.rv(node))


def intrinsic(it, e, f, n):
    A = e["args"]
    if n in ("ensure_equal_",):
        nm = name_arg(it, A[0])
        a, b = as_f(it.rv(A[1])), as_f(it.rv(A[2]))
        g = T.and_(T.not_(a.nan), T.not_(a.und), T.not_(b.nan), T.not_(b.und), T.eq(a.t, b.t))
        it.add_obl(nm, g, it.where(e))
        return None
    if n == "ensure_derivative" and "body" not in f:
        nm = name_arg(it, A[0])
        a, b = as_f(it.rv(A[1])), as_f(it.rv(A[2]))
        if any(x.startswith("$kink") for x in b.t.fv):
            it.assumed.add("points at which the differentiated function has a kink are not compared")
            return None
        g = T.and_(T.not_(a.nan), T.not_(a.und), T.not_(b.nan), T.not_(b.und), T.eq(a.t, b.t))
        it.add_obl(nm, g, it.where(e))
        return None
    if n == "ensure_le_":
        nm = name_arg(it, A[0])
        a, b = as_f(it.rv(A[1])), as_f(it.rv(A[2]))
        g = T.and_(T.not_(a.nan), T.not_(a.und), T.not_(b.nan), T.not_(b.und), T.le(a.t, b.t))
        it.add_obl(nm, g, it.where(e))
        return None
    if n == "lemma_equal_":
        nm = name_arg(it, A[0])
        a, b = as_f(it.rv(A[1])), as_f(it.rv(A[2]))
        g = T.and_(T.not_(a.nan), T.not_(a.und), T.not_(b.nan), T.not_(b.und), T.eq(a.t, b.t))
        it.add_obl(nm, g, it.where(e))
        it.assume(g)
        return None
    if n == "lemma":
        nm = name_arg(it, A[0])
        c = it.boolean(it.rv(A[1]))
        it.add_obl(nm, c, it.where(e))
        it.assume(c)
        return None
    if n == "ensure":
        nm = name_arg(it, A[0])
        it.add_obl(nm, condition(it, A[1]), it.where(e))
        return None
    if n == "require":
        c = condition(it, A[0])
        if it.known(c) is False:
            from interp import Infeasible
            raise Infeasible()
        it.assume(c)
        return None
    if n == "real":
        nm = name_arg(it, A[0])
        return F(T.sym(nm, "R", opt_index(it, A[1:])))
    if n == "real_in":
        nm = name_arg(it, A[0])
        s = T.sym(nm)
        it.assume(T.le(as_f(it.rv(A[1])).t, s))
        it.assume(T.le(s, as_f(it.rv(A[2])).t))
        return F(s)
    if n == "positive":
        nm = name_arg(it, A[0])
        s = T.sym(nm, "R", opt_index(it, A[1:]))
        it.assume(T.lt(T.ZERO, s))
        return F(s)
    if n == "flag":
        return T.sym(name_arg(it, A[0]), "B")
    if n in ("integer",):
        s = T.sym(name_arg(it, A[0]), "I")
        it.assume(T.le(it.rv(A[1]), s))
        it.assume(T.le(s, it.rv(A[2])))
        return s
    if n == "size":
        s = T.sym(name_arg(it, A[0]), "I")
        it.assume(T.le(it.rv(A[1]), s))
        return s
    if n == "index":
        s = T.sym(name_arg(it, A[0]), "I")
        m = it.rv(A[1])
        it.assume(T.le(I(0), s))
        it.assume(T.lt(s, m))
        return s
    if n == "reals":
        nm = name_arg(it, A[0])
        return Arr(it.rv(A[1]), lambda i: F(T.sym(nm, "R", (i,))))
    if n == "table":
        nm = name_arg(it, A[0])
        a, b = it.rv(A[1]), it.rv(A[2])
        return Arr(a, lambda i: Arr(b, lambda j: F(T.sym(nm, "R", (i, j)))))
    if n in ("vectors", "unit_vectors"):
        nm = name_arg(it, A[0])
        rec = it.rec_of(it.targ_type(it.rec_of(f["ret"]), 0))
        d = it.targ_int(rec, 1)
        m = it.rv(A[1])

        def elem(i):
            return Tens(1, d, [F(T.sym(nm, "R", (i, I(j)))) for j in range(d)])
        if n == "unit_vectors":
            prover.axioms[nm] = lambda a: [unit_length(elem(a[0]))]
        return Arr(m, elem)
    if n == "unit_vector":
        nm = name_arg(it, A[0])
        d = it.targ_int(it.rec_of(f["ret"]), 1)
        c = [T.sym(nm, "R", (I(j),)) for j in range(d)]
        prover.axioms[nm] = lambda a: [unit_length(Tens(1, d, [F(x) for x in c]))]
        return Tens(1, d, [F(x) for x in c])
    if n == "replaying":
        return T.FALSE
    if n == "text_file":
        return Str(name_arg(it, A[0]))
    if n in ("exists", "rows", "columns", "entry"):
        x = name_arg(it, A[0]) + ".txt"
        ix = tuple(it.rv(a) for a in A[1:])
        r = T.sym("%s(%s)" % (n, x), {"exists": "B", "entry": "R"}.get(n, "I"), ix)
        if n == "entry":
            return F(r)
        if n != "exists":
            it.nonneg(r)
        return r
    if n == "crystal_grid":
        return it.alloc(Opq(T.sym("grid", "O"), "dealii::Triangulation"))
    if n == "crystals_of":
        return number_of_materials(it)
    if n == "crystals":
        it.assume(T.le(I(2), T.sym("n_crystals", "I")))
        it.assume(T.le(I(1), T.sym("n_slips", "I")))
        return Ptr(it.alloc(Opq(T.sym("crystals", "O"), "gCP::CrystalsData")))
    if n == "derivative":
        fn = it.rv(A[0])
        x0 = as_f(it.rv(A[1]))
        if x0.d is not None:
            raise Unsupported("nested derivative")
        r = it.call_closure(fn, [F(x0.t, x0.nan, x0.und, T.ONE)])
        r = it.val(r)
        return dual_part(r)
    if n == "throws":
        from interp import ThrowEx
        fn = it.rv(A[0])
        fr = it.frame
        it.expect_throw += 1
        try:
            it.call_closure(fn, [])
        except ThrowEx:
            it.frame = fr
            return T.TRUE
        finally:
            it.expect_throw -= 1
        return T.FALSE
    if n in ("sum", "forall"):
        m = it.rv(A[0])
        fn = it.rv(A[1])
        if m.op == "num":
            vs = [it.val(it.call_closure(fn, [I(k)])) for k in range(int(m.val))]
            if n == "sum":
                r = FZERO
                for v in vs:
                    r = fadd(r, v)
                return r
            return T.and_(*vs) if vs else T.TRUE
        k = T.fresh_name("q")
        body = it.comprehension(k, m, fn)
        if n == "sum":
            if body.nan is not T.FALSE or body.und is not T.FALSE:
                raise Unsupported("sum of possibly undefined values")
            return F(T.sum_(I(0), m, k, body.t), d=None if body.d is None else T.sum_(I(0), m, k, body.d))
        return T.eq0(T.sum_(I(0), m, k, T.ite(body, T.ZERO, T.ONE)))
    r = fem.intrinsic(it, e, f, n)
    return r if r is not NO else linalg.intrinsic(it, e, f, n)


def number_of_materials(it):
    n = T.sym("materials", "I")
    it.nonneg(n)
    return n


def set_method(it, o, v, m, vs):
    """the set of the material ids of the cells of the triangulation"""
    if m == "count":
        return T.fresh("contained", "I")
    if m in ("emplace", "insert") and isinstance(o, Loc):
        it.store(o, Opq(T.sym("with", "O", (v.key, vs[0])), v.cls))
        return Pair([Opq(T.fresh("it", "O"), "?"), T.fresh("inserted", "B")])
    if m == "size":
        return number_of_materials(it)
    if m == "operator=" and isinstance(o, Loc):
        it.store(o, vs[0])
        return o
    raise Unsupported("set method " + m)


def dual_part(v):
    if isinstance(v, F):
        return F(v.d if v.d is not None else T.ZERO, v.nan, v.und)
    if isinstance(v, Tens):
        return Tens(v.rank, v.dim, [dual_part(x) for x in v.c], v.sym)
    if isinstance(v, Arr):
        return Arr(v.n, lambda i: dual_part(arr_get(v, i)), (), v.cols, v.kind)
    raise Unsupported("derivative of " + type(v).__name__)
