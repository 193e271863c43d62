"""Hash-consed first-order terms over the mathematical reals, integers and
booleans, with a light-weight canonical form for sums and products."""
from fractions import Fraction
import math

_table = {}
_ids = [0]
EMPTY = frozenset()


class Term:
    __slots__ = ("op", "args", "sort", "val", "id", "fv", "ring", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
    t.id = _ids[0]
    _ids[0] += 1
    t.ring = None
    fv = EMPTY
    for a in args:
        if a.fv:
            fv = fv | a.fv if fv else a.fv
    if op == "sym" and val[0] == "$":
        fv = fv | {val}
    elif op in ("sum", "lam"):
        fv = fv - {val}
    elif op == "fold":
        fv = fv - set(val[0])
    t.fv = fv
    _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(q, sort="R"):
    return _mk("num", (), sort, Fraction(q))


def boolc(b):
    return _mk("bool", (), "B", bool(b))


TRUE = boolc(True)
FALSE = boolc(False)
ZERO = num(0)
ONE = num(1)
IZERO = num(0, "I")
IONE = num(1, "I")


def sym(name, sort="R", args=()):
    return _mk("sym", tuple(args), sort, name)


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return sym("$%s!%d" % (prefix, _fresh[0]), sort)


def fresh_name(prefix):
    _fresh[0] += 1
    return "$%s!%d" % (prefix, _fresh[0])


def is_num(t):
    return t.op == "num"


# ------------------------------------------------------------- arithmetic
def _linear(t):
    """-> (dict term->coef, const)"""
    if t.op == "num":
        return {}, t.val
    if t.op == "add":
        return dict(zip(t.args, t.val[0])), t.val[1]
    return {t: Fraction(1)}, Fraction(0)


def _mk_linear(d, c, sort):
    items = [(t, q) for t, q in d.items() if q != 0]
    if not items:
        return num(c, sort)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk("add", [t for t, _ in items], sort,
               (tuple(q for _, q in items), c))


def add(*ts):
    sort = ts[0].sort
    d = {}
    c = Fraction(0)
    for t in ts:
        e, k = _linear(t)
        c += k
        for x, q in e.items():
            d[x] = d.get(x, 0) + q
    return _mk_linear(d, c, sort)


def scale(q, t):
    q = Fraction(q)
    d, c = _linear(t)
    return _mk_linear({x: q * k for x, k in d.items()}, q * c, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _factors(t):
    """-> (coef, dict base->exp)"""
    if t.op == "num":
        return t.val, {}
    if t.op == "mul":
        return Fraction(1), dict(zip(t.args, t.val))
    if t.op == "add":
        if len(t.args) == 1 and t.val[1] == 0:
            c, f = _factors(t.args[0])
            return t.val[0][0] * c, f
        # pull out leading coefficient so that bases are canonical
        lead = t.val[0][0]
        if lead != 1:
            return lead, {scale(1 / lead, t): 1}
    return Fraction(1), {t: 1}


def _mk_mul(coef, f, sort):
    if coef == 0:
        return num(0, sort)
    f = {b: e for b, e in f.items() if e != 0}
    if not f:
        return num(coef, sort)
    items = sorted(f.items(), key=lambda x: x[0].id)
    if len(items) == 1 and items[0][1] == 1:
        base = items[0][0]
    else:
        base = _mk("mul", [b for b, _ in items], sort, tuple(e for _, e in items))
    return base if coef == 1 else scale(coef, base)


def mul(*ts):
    sort = ts[0].sort
    coef = Fraction(1)
    f = {}
    for t in ts:
        c, g = _factors(t)
        coef *= c
        if coef == 0:
            return num(0, sort)
        for b, e in g.items():
            f[b] = f.get(b, 0) + e
    return _mk_mul(coef, f, sort)


def ipow(t, n):
    c, f = _factors(t)
    if c == 0 and n < 0:
        return app("inv", t)
    return _mk_mul(c ** n, {b: e * n for b, e in f.items()}, t.sort)


def inv_safe(t):
    """1/t for t known to be nonzero on the current path"""
    return ipow(t, -1)


def inv_unsafe(t):
    c, f = _factors(t)
    if c == 0:
        return num(0)
    r = num(1 / c)
    for b, e in f.items():
        if e > 0:
            r = mul(r, ipow(_mk("app", (b,), "R", "inv"), e))
        else:
            r = mul(r, ipow(b, -e))
    return r


def i2r(t):
    if t.sort == "R":
        return t
    if t.op == "num":
        return num(t.val)
    if t.op == "add":
        r = num(t.val[1])
        for a, q in zip(t.args, t.val[0]):
            r = add(r, scale(q, i2r(a)))
        return r
    if t.op == "mul":
        r = ONE
        for a, e in zip(t.args, t.val):
            r = mul(r, ipow(i2r(a), e))
        return r
    if t.op == "ite":
        return ite(t.args[0], i2r(t.args[1]), i2r(t.args[2]))
    return _mk("app", (t,), "R", "i2r")


def app(name, *args, sort="R"):
    """mathematical function application with the standard normalisations"""
    a = args[0] if args else None
    if name == "sqrt":
        if a.op == "num" and a.val >= 0:
            n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
            if n * n == a.val.numerator and d * d == a.val.denominator:
                return num(Fraction(n, d))
    elif name == "exp":
        if a.op == "num" and a.val == 0:
            return ONE
    if name in ("sin", "cos"):
        r = _half_turns(name, a)
        if r is not None:
            return r
    if name in ("sqrt", "exp"):
        pass
    elif name in ("atan", "sinh", "tanh", "erf", "sin", "asin"):
        if a.op == "num" and a.val == 0:
            return ZERO
        if _negative_lead(a):
            return neg(app(name, neg(a)))
    elif name in ("cosh", "cos"):
        if a.op == "num" and a.val == 0:
            return ONE
        if _negative_lead(a):
            return app(name, neg(a))
    elif name == "log":
        if a.op == "num" and a.val == 1:
            return ZERO
    elif name == "pow":
        b = args[1]
        if b.op == "num":
            if b.val.denominator == 1 and 0 <= b.val <= 6:
                return ipow(a, int(b.val))
        if a.op == "num" and a.val == 1:
            return ONE
    elif name == "inv":
        if a.op == "num" and a.val != 0:
            return num(1 / a.val)
    elif name == "floor":
        if a.op == "num":
            return num(math.floor(a.val), sort)
        whole, rest = num(0, "I"), a
        if a.op == "add":
            rest = num(a.val[1])
            for m, q in zip(a.args, a.val[0]):
                k = _integral(m) if q.denominator == 1 else None
                if k is None:
                    rest = add(rest, scale(q, m))
                else:
                    whole = add(whole, scale(q, k))
        elif a.sort == "R":
            k = _integral(a)
            if k is not None:
                return k
        if whole.op != "num" or whole.val != 0:
            return add(whole, app("floor", rest, sort=sort))
    return _mk("app", args, sort, name)


def _integral(m):
    """the integer term whose value is m, if evident"""
    if m.op == "app" and m.val == "i2r":
        return m.args[0]
    if m.op == "mul" and all(a.op == "app" and a.val == "i2r" and e > 0 for a, e in zip(m.args, m.val)):
        r = num(1, "I")
        for a, e in zip(m.args, m.val):
            r = mul(r, ipow(a.args[0], e))
        return r
    return None


def _half_turns(name, a):
    """drops whole turns (even integer multiples of pi) and shifts quarter
    turns into the function"""
    if a.op == "add":
        parts = list(zip(a.args, a.val[0]))
        rest = num(a.val[1])
    else:
        parts, rest = [(a, Fraction(1))], ZERO
    quarter, turned = Fraction(0), False
    for m, q in parts:
        c = _pi_multiple(m, q)
        if c is None:
            rest = add(rest, scale(q, m))
            continue
        if c == 0 or (2 * c).denominator != 1:
            if c == 0:
                turned = True
            else:
                rest = add(rest, scale(q, m))
            continue
        quarter += 2 * c
        turned = True
    if not turned:
        return None
    k = int(quarter) % 4
    other = {"sin": "cos", "cos": "sin"}[name]
    if k == 0:
        return app(name, rest)
    if k == 2:
        return neg(app(name, rest))
    r = app(other, rest)
    return r if (name == "sin") == (k == 1) else neg(r)


def _pi_multiple(m, q):
    """the constant c if q m = c pi, 0 if it is an even integer times pi"""
    if m.op == "sym" and m.val == "pi":
        return q
    if m.op != "mul":
        return None
    seen, ints = False, False
    for a, e in zip(m.args, m.val):
        if a.op == "sym" and a.val == "pi" and e == 1 and not seen:
            seen = True
        elif a.op == "app" and a.val == "i2r" and e >= 1:
            ints = True
        else:
            return None
    if not seen or not ints:
        return None
    return Fraction(0) if (q / 2).denominator == 1 else None


def _negative_lead(t):
    if t.op == "num":
        return t.val < 0
    if t.op == "add":
        # canonical: sign of the coefficient of the first (lowest id) argument
        return t.val[0][0] < 0
    return False


# ---------------------------------------------------------------- booleans
def not_(t):
    if t.op == "bool":
        return FALSE if t.val else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    return _mk("not", (t,), "B")


def and_(*ts):
    s = []
    seen = set()
    for t in ts:
        if t.op == "bool":
            if not t.val:
                return FALSE
            continue
        for u in (t.args if t.op == "and" else (t,)):
            if u.id in seen:
                continue
            seen.add(u.id)
            s.append(u)
    for u in s:
        if not_(u).id in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return _mk("and", s, "B")


def or_(*ts):
    s = []
    seen = set()
    for t in ts:
        if t.op == "bool":
            if t.val:
                return TRUE
            continue
        for u in (t.args if t.op == "or" else (t,)):
            if u.id in seen:
                continue
            seen.add(u.id)
            s.append(u)
    for u in s:
        if not_(u).id in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return _mk("or", s, "B")


def implies(a, b):
    return or_(not_(a), b)


def _canon_scale(t):
    d, c = _linear(t)
    if not d:
        return t
    first = min(d, key=lambda x: x.id)
    q = abs(d[first])
    if q != 1:
        t = scale(1 / q, t)
    return t


def _split_const_ite(t, f):
    """f applied below an integer choice one branch of which is a constant."""
    if t.sort != "I":
        return None
    d, c = _linear(t)
    if len(d) != 1:
        return None
    (x, k), = d.items()
    if x.op != "ite" or "num" not in (x.args[1].op, x.args[2].op):
        return None
    g = lambda y: f(add(scale(k, y), num(c, "I")))
    return ite(x.args[0], g(x.args[1]), g(x.args[2]))


def le0(t):
    if t.op == "num":
        return boolc(t.val <= 0)
    r = _split_const_ite(t, le0)
    if r is not None:
        return r
    if t.sort == "I":
        d, c = _linear(t)
        q = _int_gcd(d)
        if q != 1:
            t = _mk_linear({x: k / q for x, k in d.items()}, Fraction(math.ceil(c / q)), "I")
        return _mk("le0", (t,), "B")
    return _mk("le0", (_canon_scale(t),), "B")


def _int_gcd(d):
    g = 0
    for k in d.values():
        g = math.gcd(g, int(k))
    return g or 1


def lt0(t):
    if t.op == "num":
        return boolc(t.val < 0)
    if t.sort == "I":
        return le0(add(t, IONE))
    return _mk("lt0", (_canon_scale(t),), "B")


def eq0(t):
    if t.op == "num":
        return boolc(t.val == 0)
    r = _split_const_ite(t, eq0)
    if r is not None:
        return r
    d, c = _linear(t)
    first = min(d, key=lambda x: x.id)
    t = scale(1 / d[first], t)
    if t.sort == "I":
        dd, cc = _linear(t)
        den = 1
        for k in list(dd.values()) + [cc]:
            den = den * k.denominator // math.gcd(den, k.denominator)
        t = scale(den, t)
        if cc != 0 and (cc * den) % _int_gcd(_linear(t)[0]) != 0:
            return FALSE
    return _mk("eq0", (t,), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le0(sub(b, a))


def gt(a, b):
    return lt0(sub(b, a))


def eq(a, b):
    if a.sort == "B":
        if a.op == "bool":
            return b if a.val else not_(b)
        if b.op == "bool":
            return a if b.val else not_(a)
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TRUE
    if a.sort == "O" or b.sort == "O":
        x, y = (a, b) if a.id <= b.id else (b, a)
        return _mk("eqo", (x, y), "B")
    return eq0(sub(a, b))


def ite(c, a, b):
    if c.op == "bool":
        return a if c.val else b
    if a is b:
        return a
    if a.sort == "B":
        if a.op == "bool":
            return or_(c, b) if a.val else and_(not_(c), b)
        if b.op == "bool":
            return or_(not_(c), a) if b.val else and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


def abs_(t):
    if t.op == "num":
        return num(abs(t.val), t.sort)
    if _negative_lead(t):
        t = neg(t)
    return ite(lt0(t), neg(t), t)


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


# ----------------------------------------------------------------- binders
def _sum_depth(t, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    r = 0
    for a in t.args:
        r = max(r, _sum_depth(a, memo))
    if t.op in ("sum", "lam", "fold"):
        r += 1
    memo[t.id] = r
    return r


_depth_memo = {}


def depth(t):
    return _sum_depth(t, _depth_memo)


def sum_(lo, hi, kname, body):
    """sum_{kname=lo}^{hi-1} body"""
    if body.op == "num" and body.val == 0:
        return ZERO
    if kname not in body.fv:
        return mul(ite(le(lo, hi), i2r(sub(hi, lo)), ZERO), body)
    if lo.op == "num" and hi.op == "num" and hi.val - lo.val <= 64:
        r = ZERO
        for v in range(int(lo.val), int(hi.val)):
            r = add(r, subst(body, {kname: num(v, "I")}))
        return r
    c, f = _factors(body)
    out, inn = {}, {}
    for b, e in f.items():
        (inn if kname in b.fv else out)[b] = e
    for b, e in inn.items():
        if b.op == "ite" and e == 1 and kname not in b.args[0].fv and ZERO in b.args[1:]:
            rest = _mk_mul(c, {x: q for x, q in f.items() if x is not b}, "R")
            return ite(b.args[0], sum_(lo, hi, kname, mul(rest, b.args[1])), sum_(lo, hi, kname, mul(rest, b.args[2])))
    inner = _mk_mul(Fraction(1), inn, "R")
    bname = "$b%d" % (depth(inner) + 1)
    inner = subst(inner, {kname: sym(bname, "I")})
    s = _mk("sum", (lo, hi, inner), "R", bname)
    return _mk_mul(c, {**out, s: 1}, "R") if s not in out else mul(num(c), _mk_mul(Fraction(1), out, "R"), s)


def lam(kname, body):
    bname = "$b%d" % (depth(body) + 1)
    body = subst(body, {kname: sym(bname, "I")})
    return _mk("lam", (body,), "O", bname)


def fold(names, inits, steps, which, lo, hi):
    """generic fold: names = (k, s1..sn) bound; value of component `which`
    after running k over [lo,hi)"""
    d = max([depth(s) for s in steps] + [0]) + 1
    ren = {n: sym("$f%d_%d" % (d, i), "I" if i == 0 else inits[i - 1].sort)
           for i, n in enumerate(names)}
    steps = [subst(s, ren) for s in steps]
    nn = tuple(ren[n].val for n in names)
    # fv of args minus bound names
    return _mk("fold", (lo, hi, *inits, *steps), inits[which].sort, (nn, len(inits), which))


# ------------------------------------------------------------ substitution
def rebuild(t, args):
    op = t.op
    if op == "add":
        r = num(t.val[1], t.sort)
        d = {}
        c = t.val[1]
        for a, q in zip(args, t.val[0]):
            e, k = _linear(a)
            c += q * k
            for x, p in e.items():
                d[x] = d.get(x, 0) + q * p
        return _mk_linear(d, c, t.sort)
    if op == "mul":
        coef = Fraction(1)
        f = {}
        for a, e in zip(args, t.val):
            c, g = _factors(a)
            if c == 0:
                if e > 0:
                    return num(0, t.sort)
                # safe inverse of a term that became 0: keep as opaque inverse
                f[app("inv", num(0))] = 1
                continue
            coef *= c ** e
            for b, k in g.items():
                f[b] = f.get(b, 0) + k * e
        return _mk_mul(coef, f, t.sort)
    if op == "sym":
        return sym(t.val, t.sort, args)
    if op == "app":
        if t.val == "i2r":
            return i2r(args[0])
        if t.val == "inv":
            return inv_unsafe(args[0])
        return app(t.val, *args, sort=t.sort)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "le0":
        return le0(args[0])
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "eqo":
        return eq(args[0], args[1])
    if op == "sum":
        # rebuilt through sum_ to re-normalise
        return sum_(args[0], args[1], t.val, args[2])
    if op == "lam":
        return lam(t.val, args[0])
    if op == "fold":
        return _mk("fold", args, t.sort, t.val)
    if op in ("num", "bool"):
        return t
    raise Exception("rebuild " + op)


def subst(t, m, memo=None):
    """replace '$'-symbols (by name)"""
    if not m:
        return t
    keys = m.keys()
    if memo is None:
        memo = {}

    def go(t):
        if not t.fv or t.fv.isdisjoint(keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "sym" and not t.args and t.val in m:
            r = m[t.val]
        else:
            if t.op == "sym" and t.val in m:
                # function symbol with arguments: value is a callable
                r = m[t.val](*[go(a) for a in t.args])
            else:
                r = rebuild(t, [go(a) for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def replace(t, m):
    """replace arbitrary subterms: m: dict term.id -> term"""
    memo = {}

    def go(t):
        r = m.get(t.id)
        if r is not None:
            return r
        if not t.args:
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        na = [go(a) for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t, na)
        memo[t.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    """all distinct subterms (pre-order)"""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(x.args)
    return seen


# --------------------------------------------------------------- ring form
class Blowup(Exception):
    pass


LIMIT = 60000


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0)))


def _padd(p, q, c=1):
    for m, k in q.items():
        v = p.get(m, 0) + c * k
        if v == 0:
            p.pop(m, None)
        else:
            p[m] = v
    return p


def _pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise Blowup()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


_byid = {}


def poly(t):
    """Laurent polynomial over atoms: {((atom id, exp),...): coef}.
    Compound bases with negative exponents stay atoms."""
    if t.ring is not None:
        return t.ring
    if t.op == "num":
        r = {(): t.val} if t.val != 0 else {}
    elif t.op == "add":
        r = {(): t.val[1]} if t.val[1] != 0 else {}
        for a, q in zip(t.args, t.val[0]):
            _padd(r, poly(a), q)
        if len(r) > LIMIT:
            raise Blowup()
    elif t.op == "mul":
        r = {(): Fraction(1)}
        for a, e in zip(t.args, t.val):
            if e > 0:
                p = poly(a)
                for _ in range(e):
                    r = _pmul(r, p)
            else:
                _byid[a.id] = a
                p = poly(a)
                if len(p) == 1:
                    (m, c), = p.items()
                    r = _pmul(r, {tuple((x, k * e) for x, k in m): c ** e})
                else:
                    r = _pmul(r, {((a.id, e),): Fraction(1)})
    else:
        _byid[t.id] = t
        r = {((t.id, 1),): Fraction(1)}
    t.ring = r
    return r


def atom(i):
    return _byid[i]


def from_poly(p, sort="R"):
    ts = []
    for m, c in p.items():
        x = num(c, sort)
        for a, e in m:
            x = mul(x, ipow(_byid[a], e))
        ts.append(x)
    return add(num(0, sort), *ts)


def _reduce_special(p):
    """apply sqrt(x)^2 = x, exp(a)exp(b) = exp(a+b), pow merging"""
    changed = False
    r = {}
    for m, c in p.items():
        sq = [(a, e) for a, e in m if _byid[a].op == "app" and _byid[a].val == "sqrt" and abs(e) >= 2]
        ex = [(a, e) for a, e in m if _byid[a].op == "app" and _byid[a].val == "exp"]
        pw = {}
        for a, e in m:
            t = _byid[a]
            if t.op == "app" and t.val == "pow":
                pw.setdefault(t.args[0].id, []).append((a, e))
        pwm = [v for k, v in pw.items() if len(v) > 1 or v[0][1] != 1
               or any(x == k for x, _ in m)]
        need_exp = len(ex) > 1 or (ex and ex[0][1] != 1)
        tr = [(a, e) for a, e in m if e >= 2 and _byid[a].op == "app" and _byid[a].val in ("sin", "sinh")]
        if not sq and not need_exp and not pwm and not tr:
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
            continue
        changed = True
        f = {(tuple((a, e) for a, e in m
                    if not any(a == x for x, _ in sq)
                    and not any(a == x for x, _ in tr)
                    and not (need_exp and any(a == x for x, _ in ex))
                    and not any(a == x for v in pwm for x, _ in v))): c}
        for a, e in sq:
            arg = _byid[a].args[0]
            k, rest = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            f = _pmul(f, poly(ipow(arg, k)))
            if rest:
                f = _pmul(f, {((a, rest),): Fraction(1)})
        for a, e in tr:
            # sin^2 = 1 - cos^2, sinh^2 = cosh^2 - 1
            arg, h = _byid[a].args[0], _byid[a].val == "sinh"
            co = app("cosh" if h else "cos", arg)
            sq2 = sub(mul(co, co), ONE) if h else sub(ONE, mul(co, co))
            for _ in range(e // 2):
                f = _pmul(f, poly(sq2))
            if e % 2:
                f = _pmul(f, {((a, 1),): Fraction(1)})
        if need_exp:
            s = ZERO
            for a, e in ex:
                s = add(s, scale(e, _byid[a].args[0]))
            s = normal(s)
            f = _pmul(f, poly(app("exp", s)))
        for v in pwm:
            base = _byid[v[0][0]].args[0]
            s = ZERO
            for a, e in v:
                s = add(s, scale(e, _byid[a].args[1]))
            # absorb integer powers of the same base
            g = {}
            for mm, cc in f.items():
                k = sum(e for x, e in mm if x == base.id)
                mm2 = tuple((x, e) for x, e in mm if x != base.id)
                g.setdefault(k, {})[mm2] = cc
            f = {}
            for k, q in g.items():
                se = normal(add(s, num(k)))
                pt = app("pow", base, se)
                _padd(f, _pmul(q, poly(pt)))
        _padd(r, f)
    return r, changed


def reduce_poly(p):
    for _ in range(20):
        p, ch = _reduce_special(p)
        if not ch:
            return p
    return p


_normal_memo = {}


def normal(t):
    """ring-normalised term (arguments of functions normalised as well)"""
    r = _normal_memo.get(t.id)
    if r is not None:
        return r
    try:
        u = t
        if t.args:
            if t.op in ("add", "mul"):
                u = rebuild(t, [normal(a) for a in t.args])
            elif t.op in ("app", "ite", "sym", "le0", "lt0", "eq0", "and", "or", "not", "sum"):
                u = rebuild(t, [normal(a) for a in t.args])
        if u.sort in ("R", "I") and u.op in ("add", "mul"):
            p = reduce_poly(poly(u))
            u = from_poly(p, u.sort)
    except Blowup:
        u = t
    _normal_memo[t.id] = u
    return u


def ring_zero(t):
    """decide whether t is identically zero as a rational function of its
    atoms (denominators are known to be nonzero)"""
    try:
        t = normal(t)
        if t.op == "num":
            return t.val == 0
        p = reduce_poly(poly(t))
        for _ in range(8):
            if not p:
                return True
            # clear compound denominators
            den = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        den[a] = min(den.get(a, 0), e)
            comp = [(a, e) for a, e in den.items()
                    if _byid[a].op in ("add",) or (_byid[a].op == "app" and _byid[a].val in ("sqrt",))]
            if not comp:
                return False
            a, e = comp[0]
            base = _byid[a]
            q = {}
            bp = {}
            for m, c in p.items():
                k = 0
                rest = []
                for x, y in m:
                    if x == a:
                        k = y
                    else:
                        rest.append((x, y))
                bp.setdefault(k - e, {})[tuple(rest)] = c
            basep = poly(base) if base.op == "add" else {((a, 1),): Fraction(1)}
            pw = {(): Fraction(1)}
            for k in range(0, max(bp) + 1):
                if k in bp:
                    _padd(q, _pmul(bp[k], pw))
                if k < max(bp):
                    pw = _pmul(pw, basep)
            p = reduce_poly(q)
        return not p
    except Blowup:
        return False


# --------------------------------------------------------------- printing
def show(t, d=0):
    if d > 12:
        return "..."
    if t.op == "num":
        q = t.val
        return str(q) if q.denominator == 1 else "%s/%s" % (q.numerator, q.denominator)
    if t.op == "bool":
        return "true" if t.val else "false"
    if t.op == "sym":
        return t.val + ("(" + ",".join(show(a, d + 1) for a in t.args) + ")" if t.args else "")
    if t.op == "add":
        s = []
        for a, q in zip(t.args, t.val[0]):
            s.append(("%s*" % q if q != 1 else "") + show(a, d + 1))
        if t.val[1] != 0:
            s.append(str(t.val[1]))
        return "(" + " + ".join(s) + ")"
    if t.op == "mul":
        return "*".join(show(a, d + 1) + ("^%d" % e if e != 1 else "") for a, e in zip(t.args, t.val))
    if t.op == "app":
        return t.val + "(" + ",".join(show(a, d + 1) for a in t.args) + ")"
    if t.op in ("le0", "lt0", "eq0"):
        return "(" + show(t.args[0], d + 1) + {"le0": "<=0", "lt0": "<0", "eq0": "==0"}[t.op] + ")"
    if t.op == "sum":
        return "SUM[%s in %s..%s](%s)" % (t.val, show(t.args[0], d + 1), show(t.args[1], d + 1), show(t.args[2], d + 1))
    return t.op + "(" + ",".join(show(a, d + 1) for a in t.args) + ")"


# -------------------------------------------------------- numeric evaluation
def evaluate(t, env, memo=None):
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "num":
            r = float(t.val) if t.sort == "R" else int(t.val)
        elif op == "bool":
            r = t.val
        elif op == "sym":
            r = env(t.val, [go(a) for a in t.args], t.sort)
        elif op == "add":
            r = t.val[1] if t.sort == "I" else float(t.val[1])
            for a, q in zip(t.args, t.val[0]):
                r += (float(q) if t.sort == "R" else q) * go(a)
        elif op == "mul":
            r = 1.0 if t.sort == "R" else 1
            for a, e in zip(t.args, t.val):
                v = go(a)
                r *= v ** e if (e > 0 or v != 0) else float("nan")
        elif op == "app":
            a = [go(x) for x in t.args]
            try:
                r = _FN[t.val](*a)
            except (ValueError, OverflowError, ZeroDivisionError):
                r = float("nan")
        elif op == "ite":
            r = go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        elif op == "not":
            r = not go(t.args[0])
        elif op == "and":
            r = all(go(a) for a in t.args)
        elif op == "or":
            r = any(go(a) for a in t.args)
        elif op == "le0":
            r = go(t.args[0]) <= 0
        elif op == "lt0":
            r = go(t.args[0]) < 0
        elif op == "eq0":
            r = go(t.args[0]) == 0
        else:
            raise Exception("evaluate " + op)
        memo[t.id] = r
        return r
    return go(t)


_FN = {
    "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos,
    "tan": math.tan, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh,
    "tanh": math.tanh, "erf": math.erf, "pow": math.pow, "i2r": float,
    "inv": lambda x: 1.0 / x, "floor": math.floor, "asin": math.asin, "acos": math.acos,
}
