"""Value domain of the symbolic interpreter.  All values are immutable."""
import terms as T


class Unsupported(Exception):
    pass


class F:
    """A double: the real number `t` unless `nan` (NaN) or `und` (infinite or
    otherwise not a real number) holds; `d` is the dual part or None."""
    __slots__ = ("t", "nan", "und", "d")

    def __init__(self, t, nan=T.FALSE, und=T.FALSE, d=None):
        self.t, self.nan, self.und, self.d = t, nan, und, d

    def __repr__(self):
        s = T.show(self.t)
        if self.nan is not T.FALSE:
            s += " nan:" + T.show(self.nan)
        if self.und is not T.FALSE:
            s += " und:" + T.show(self.und)
        return s


FZERO = F(T.ZERO)
FONE = F(T.ONE)


class Tens:
    __slots__ = ("rank", "dim", "c", "sym")

    def __init__(self, rank, dim, c, sym=False):
        self.rank, self.dim, self.c, self.sym = rank, dim, tuple(c), sym

    def __repr__(self):
        return "Tens%d%s" % (self.rank, list(self.c))


class Struct:
    __slots__ = ("rec", "f")

    def __init__(self, rec, f):
        self.rec, self.f = rec, f

    def __repr__(self):
        return "Struct<%s>%s" % (self.rec, self.f)


class Arr:
    """sequence of (possibly symbolic) length n; element i is the newest
    matching entry of `ups`, else fn(i)"""
    __slots__ = ("n", "fn", "ups", "memo", "cols", "kind")

    def __init__(self, n, fn, ups=(), cols=None, kind="vec"):
        self.n, self.fn, self.ups, self.cols, self.kind = n, fn, ups, cols, kind
        self.memo = {}

    def base(self, i):
        r = self.memo.get(i.id)
        if r is None:
            r = self.fn(i)
            self.memo[i.id] = r
        return r

    def with_ups(self, ups):
        a = Arr(self.n, self.fn, ups, self.cols, self.kind)
        a.memo = self.memo
        return a

    def __repr__(self):
        return "Arr[%s]%s" % (T.show(self.n), [(T.show(i), v) for i, v in self.ups])


class Loc:
    __slots__ = ("addr", "path")

    def __init__(self, addr, path=()):
        self.addr, self.path = addr, path

    def at(self, *p):
        return Loc(self.addr, self.path + p)

    def __repr__(self):
        return "Loc(%s,%s)" % (self.addr, self.path)


class Ptr:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Ptr(%s)" % (self.loc,)


NULL = Ptr(None)


class Closure:
    __slots__ = ("f", "caps", "this")

    def __init__(self, f, caps, this):
        self.f, self.caps, self.this = f, caps, this


class FnRef:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Opq:
    """object of a library type (or a contracted class) known only through
    its observers, which are functions of `key`"""
    __slots__ = ("key", "cls", "f")

    def __init__(self, key, cls, f=None):
        self.key, self.cls, self.f = key, cls, f or {}

    def __repr__(self):
        return "Opq<%s>(%s)" % (self.cls, T.show(self.key))


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % (self.s,)


class Text(Str):
    """line `row` (or its field `col`) of the file `file`; `bare` after the
    blanks have been removed"""
    __slots__ = ("file", "row", "col", "bare")

    def __init__(self, file, row, col=None, bare=False):
        self.s, self.file, self.row, self.col, self.bare = None, file, row, col, bare


class Pair:
    """std::pair / std::tuple"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)


class Iter:
    """iterator into the sequence at `loc`"""
    __slots__ = ("loc", "i")

    def __init__(self, loc, i):
        self.loc, self.i = loc, i


class MapV:
    """std::map: list of (key value, mapped value), newest last; `base` gives
    the initial content as a function of the key or None (empty)"""
    __slots__ = ("items", "base")

    def __init__(self, items=(), base=None):
        self.items, self.base = items, base


# ------------------------------------------------------------ arithmetic
def fadd(a, b):
    d = None
    if a.d is not None or b.d is not None:
        d = T.add(a.d or T.ZERO, b.d or T.ZERO)
    return F(T.add(a.t, b.t), T.or_(a.nan, b.nan), T.or_(a.und, b.und), d)


def fneg(a):
    return F(T.neg(a.t), a.nan, a.und, None if a.d is None else T.neg(a.d))


def fsub(a, b):
    return fadd(a, fneg(b))


def fmul(a, b):
    d = None
    if a.d is not None or b.d is not None:
        d = T.ZERO
        if a.d is not None:
            d = T.add(d, T.mul(a.d, b.t))
        if b.d is not None:
            d = T.add(d, T.mul(b.d, a.t))
    return F(T.mul(a.t, b.t), T.or_(a.nan, b.nan), T.or_(a.und, b.und), d)


def merge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is b:
        return a
    if c.op == "bool":
        return a if c.val else b
    if isinstance(a, F) and isinstance(b, F):
        d = None
        if a.d is not None or b.d is not None:
            d = T.ite(c, a.d or T.ZERO, b.d or T.ZERO)
        return F(T.ite(c, a.t, b.t), T.ite(c, a.nan, b.nan), T.ite(c, a.und, b.und), d)
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        return T.ite(c, a, b)
    if isinstance(a, Tens) and isinstance(b, Tens):
        return Tens(a.rank, a.dim, [merge(c, x, y) for x, y in zip(a.c, b.c)], a.sym)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.rec == b.rec:
        return Struct(a.rec, {k: merge(c, a.f[k], b.f[k]) if k in b.f else a.f[k] for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr):
        return arr_merge(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and same_loc(a.loc, b.loc):
        return a
    if isinstance(a, Str) and isinstance(b, Str):
        return a if a is b or (a.s is not None and a.s == b.s) else Str(None)
    if isinstance(a, Pair) and isinstance(b, Pair) and len(a.v) == len(b.v):
        return Pair([merge(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.key is b.key and not a.f and not b.f:
            return a
        return Opq(T.ite(c, a.key, b.key), a.cls)
    if isinstance(a, Closure) and isinstance(b, Closure) and a.f == b.f:
        return a
    raise Unsupported("cannot join %s and %s" % (type(a).__name__, type(b).__name__))


def arr_merge(c, a, b):
    i0 = 0
    n = min(len(a.ups), len(b.ups))
    while i0 < n and a.ups[i0][0] is b.ups[i0][0] and a.ups[i0][1] is b.ups[i0][1]:
        i0 += 1
    if a.fn is b.fn and i0 == len(a.ups) and i0 == len(b.ups) and a.n is b.n:
        return a

    def fn(i):
        return merge(c, arr_get(a, i), arr_get(b, i))
    return Arr(T.ite(c, a.n, b.n), fn, (), merge(c, a.cols, b.cols) if a.cols is not None and b.cols is not None else a.cols, a.kind)


oracle = [None]     # function(term bool) -> True/False/None under the current path


def arr_get(a, i):
    pend = []
    for j, v in reversed(a.ups):
        if j is i:
            return _fold(pend, v)
        c = T.eq(i, j)
        if c is T.FALSE:
            continue
        if c is T.TRUE:
            return _fold(pend, v)
        k = oracle[0](c) if oracle[0] else None
        if k is True:
            return _fold(pend, v)
        if k is False:
            continue
        pend.append((c, v))
    return _fold(pend, a.base(i))


def _fold(pend, v):
    for c, x in reversed(pend):
        v = merge(c, x, v)
    return v


def arr_set(a, i, v):
    ups = a.ups
    if any(j is i for j, _ in ups):
        # the entry is overwritten; entries after it may alias, keep order
        ups = tuple((j, w) for j, w in ups if j is not i)
    return a.with_ups(ups + ((i, v),))


def same_loc(a, b):
    if a is None or b is None:
        return a is b
    if a.addr != b.addr or len(a.path) != len(b.path):
        return False
    return all(x is y or x == y for x, y in zip(a.path, b.path))


# ------------------------------------------------------------ traversal
def map_leaves(v, fn, arrfn=None):
    """apply fn to every scalar term of the value"""
    if isinstance(v, F):
        t, nan, und = fn(v.t), fn(v.nan), fn(v.und)
        d = None if v.d is None else fn(v.d)
        if t is v.t and nan is v.nan and und is v.und and d is v.d:
            return v
        return F(t, nan, und, d)
    if isinstance(v, T.Term):
        return fn(v)
    if isinstance(v, Tens):
        return Tens(v.rank, v.dim, [map_leaves(x, fn) for x in v.c], v.sym)
    if isinstance(v, Struct):
        return Struct(v.rec, {k: map_leaves(x, fn) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr(fn(v.n), lambda i, v=v: map_leaves(v.fn(i), fn),
                   tuple((fn(i), map_leaves(x, fn)) for i, x in v.ups),
                   None if v.cols is None else fn(v.cols), v.kind)
    if isinstance(v, Pair):
        return Pair([map_leaves(x, fn) for x in v.v])
    if isinstance(v, Opq):
        return Opq(fn(v.key), v.cls, {k: map_leaves(x, fn) for k, x in v.f.items()})
    if isinstance(v, Ptr):
        if v.loc is None:
            return v
        return Ptr(map_loc(v.loc, fn))
    if isinstance(v, Loc):
        return map_loc(v, fn)
    if isinstance(v, Iter):
        return Iter(map_loc(v.loc, fn), fn(v.i))
    if isinstance(v, MapV):
        return MapV(tuple((map_leaves(k, fn), map_leaves(x, fn)) for k, x in v.items), v.base)
    return v


def map_loc(l, fn):
    p = tuple(fn(x) if isinstance(x, T.Term) else x for x in l.path)
    if all(x is y for x, y in zip(p, l.path)):
        return l
    return Loc(l.addr, p)
