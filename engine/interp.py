"""Symbolic execution of the extracted functions: turns every contract into
proof obligations.  Loops over symbolic ranges are summarised by synthesised
invariants (closed forms per location), calls into gCP are executed, library
calls are replaced by the trusted models of models.py."""
import math
import re
from fractions import Fraction
import sys
import terms as T
from values import *
import prover

sys.setrecursionlimit(200000)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    def __init__(self, where):
        self.where = where


class Infeasible(Exception):
    pass


class Level:
    def __init__(self, syms):
        self.syms = syms
        self.all = False            # takes every decision, see merged()
        self.decided = []
        self.pc = []
        self.pcset = {}
        self.trail = []
        self.pos = 0
        self.pend = []

    def assume(self, c):
        for x in (c.args if c.op == "and" else (c,)):
            if x.op == "and":
                self.assume(x)
            elif x.id not in self.pcset and x is not T.TRUE:
                self.pcset[x.id] = x
                self.pc.append(x)


class Obligation:
    __slots__ = ("name", "pc", "goal", "where", "nan")

    def __init__(self, name, pc, goal, where):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where


class Prog:
    def __init__(self, data):
        self.funs = data["funs"]
        self.types = data["types"]
        self.recs = data["recs"]
        self.entries = data["entries"]
        self.opaque = ()

    def is_opaque_rec(self, rid):
        return self.recs[rid]["name"] in self.opaque


UNSIGNED_BITS = {8, 16, 32, 64}


class Interp:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.opts = opts or {}
        self.obligs = []
        self.funs_used = {}
        self.assumed = set()
        self.loops = {}
        self.deadline = None
        import models
        self.models = models
        self.globals = {}
        # facts about symbols are axioms, not assumptions of the place they occur at
        self.universal = False

    # ------------------------------------------------------------- paths
    def run_entry(self, fid, max_paths=20000):
        """explore all paths of a contract function"""
        prover.axioms.clear()
        prover._always.clear()
        prover._ax_syms.clear()
        self.name = self.p.funs[fid]["name"]
        top = Level(set())
        self.levels = [top]
        self.inputs = {}
        self.explored, self.alive, self.seen = {}, [], set()
        npaths = 0
        self.obligs = []
        while True:
            T.reset_fresh()
            self.levels = [top]
            top.pos = 0
            top.pc, top.pcset = [], {}
            top.pend = []
            self.heap = {}
            self.next_addr = 0
            self.writes = None
            self.frame = None
            self.expect_throw = 0
            self.path_obl = []
            self.statics = {}
            self.families = {}
            self.abstracts, self.lax, self.last_iterations, self.n_blocks, self.loop_depth = {}, False, 1, 2, 0
            self.inmost = 0
            self.universal = False
            self.pointwise, self.dofwise, self.precise, self.count_rows = False, set(), False, False
            self.invariants, self.loop_frame, self.unsigned = {}, None, set()
            self.loop_mods = getattr(self, "loop_mods", {})
            oracle[0] = self.known
            try:
                self.call_fun(fid, [], None, None)
                self.path_end = "ok"
            except Infeasible:
                if not self.precise:
                    self.path_obl = []
                self.path_end = "infeasible"
            except ThrowEx as e:
                self.add_obl("no exception is thrown (%s)" % e.where, T.FALSE, e.where)
                self.path_end = "throw"
            for o in self.path_obl:
                k = (o.name, o.goal.id, tuple(c.id for c in o.pc))
                if not self.precise or k not in self.seen:
                    self.seen.add(k)
                    self.obligs.append(o)
            npaths += 1
            if not self.backtrack(top):
                break
            if npaths >= max_paths:
                raise Unsupported("more than %d paths" % max_paths)
        self.npaths = npaths
        return self.obligs

    @staticmethod
    def backtrack(level):
        tr = level.trail
        del tr[level.pos:]
        while tr and not tr[-1]:
            tr.pop()
        if not tr:
            return False
        tr[-1] = False
        return True

    def pc(self):
        r = []
        for l in self.levels:
            r.extend(l.pc)
        return r

    def level_of(self, t):
        if t.fv:
            for i in range(len(self.levels) - 1, 0, -1):
                if self.levels[i].all or not self.levels[i].syms.isdisjoint(t.fv):
                    return i
        return self.inmost

    def assume(self, c):
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        self.levels[self.level_of(c)].assume(c)

    def in_pc(self, c):
        for l in self.levels:
            if c.id in l.pcset:
                return True
        return False

    def syntactic(self, c):
        """True/False/None without the solver"""
        if c.op == "bool":
            return c.val
        if self.in_pc(c):
            return True
        n = T.not_(c)
        if self.in_pc(n):
            return False
        if c.op == "and":
            rs = [self.syntactic(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == "or":
            rs = [self.syntactic(a) for a in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "not":
            r = self.syntactic(c.args[0])
            return None if r is None else not r
        if c.op in ("le0", "lt0", "eq0") and c.args[0].sort == "R":
            s = self.sign(c.args[0])
            if s is not None:
                if c.op == "le0":
                    if s in ("-", "0", "<="):
                        return True
                    if s == "+":
                        return False
                elif c.op == "lt0":
                    if s == "-":
                        return True
                    if s in ("+", "0", ">="):
                        return False
                else:
                    if s == "0":
                        return True
                    if s in ("+", "-", "!="):
                        return False
        return None

    def known(self, c):
        r = self.syntactic(c)
        if r is not None:
            return r
        return prover.quick(self.pc(), c)

    def decide(self, c, what=None):
        r = self.known(c)
        if r is not None:
            if r:
                return True
            return False
        L = self.levels[self.level_of(c)]
        if L.pos < len(L.trail):
            v = L.trail[L.pos]
        else:
            v = True
            L.trail.append(v)
        L.pos += 1
        L.assume(c if v else T.not_(c))
        L.decided.append(c if v else T.not_(c))
        return v

    # --------------------------------------------------------- sign
    def sign(self, t, depth=0):
        if t.op == "num":
            return "+" if t.val > 0 else "-" if t.val < 0 else "0"
        for l in self.levels:
            s = l.pcset
            if s:
                if T.lt0(T.neg(t)).id in s:
                    return "+"
                if T.lt0(t).id in s:
                    return "-"
                if T.eq0(t).id in s:
                    return "0"
        r = self._sign(t, depth)
        if r in (None, ">=", "<="):
            ne = T.not_(T.eq0(t))
            if self.in_pc(ne):
                return {None: "!=", ">=": "+", "<=": "-"}[r]
        if r is None:
            if self.in_pc(T.le0(T.neg(t))):
                return ">="
            if self.in_pc(T.le0(t)):
                return "<="
        return r

    def _sign(self, t, depth):
        if depth > 12:
            return None
        if t.op == "sym" and t.val == "pi":
            return "+"
        if t.op == "mul":
            neg = False
            strict = True
            zero = False
            unk = False
            for b, e in zip(t.args, t.val):
                s = self.sign(b, depth + 1)
                if s == "0":
                    return "0" if e > 0 else None
                if e % 2 == 0:
                    if s in ("+", "-", "!="):
                        continue
                    strict = False
                    continue
                if s in ("+", "-"):
                    neg ^= s == "-"
                elif s in (">=", "<="):
                    neg ^= s == "<="
                    strict = False
                elif s == "!=":
                    unk = True
                else:
                    return None
            if unk:
                return "!=" if strict else None
            return ("-" if neg else "+") if strict else ("<=" if neg else ">=")
        if t.op == "add":
            pos = neg = False
            strict = False
            c = t.val[1]
            if c > 0:
                pos = strict = True
            elif c < 0:
                neg = strict = True
            for a, q in zip(t.args, t.val[0]):
                s = self.sign(a, depth + 1)
                if s in (None, "!="):
                    return None
                if q < 0:
                    s = {"+": "-", "-": "+", ">=": "<=", "<=": ">=", "0": "0"}[s]
                if s in ("+", ">="):
                    pos = True
                if s in ("-", "<="):
                    neg = True
                if s in ("+", "-"):
                    strict = True
            if pos and neg:
                return None
            if pos:
                return "+" if strict else ">="
            if neg:
                return "-" if strict else "<="
            return "0"
        if t.op == "app":
            n = t.val
            if n in ("exp", "cosh"):
                return "+"
            if n == "sqrt":
                s = self.sign(t.args[0], depth + 1)
                if s == "+":
                    return "+"
                if s == "0":
                    return "0"
                return ">="
            if n in ("atan", "tanh", "sinh", "erf"):
                return self.sign(t.args[0], depth + 1)
            if n == "pow":
                s = self.sign(t.args[0], depth + 1)
                if s == "+":
                    return "+"
                if s in (">=", "0"):
                    return ">="
            if n == "i2r":
                for l in self.levels:
                    i = t.args[0]
                    if T.le0(T.sub(T.IONE, i)).id in l.pcset:
                        return "+"
                    if T.le0(T.neg(i)).id in l.pcset:
                        return ">="
        if t.op == "ite":
            a, b = self.sign(t.args[1], depth + 1), self.sign(t.args[2], depth + 1)
            if a is None or b is None:
                return None
            if a == b:
                return a
            st = {a, b}
            if st <= {"+", ">=", "0"}:
                return ">="
            if st <= {"-", "<=", "0"}:
                return "<="
            if st <= {"+", "-", "!="}:
                return "!="
            return None
        if t.op == "sum":
            s = self.sign(t.args[2], depth + 1)
            if s in ("+", ">="):
                return ">="
            if s in ("-", "<="):
                return "<="
            if s == "0":
                return "0"
        return None

    def nonzero(self, t):
        s = self.sign(t)
        if s in ("+", "-", "!="):
            return True
        if s == "0":
            return False
        if t.op == "app":
            # a strict inequality of the path that fails for t = 0
            for l in self.levels:
                for c in l.pc:
                    if c.op == "lt0" and any(x is t for x in T.subterms(c).values()):
                        if self.sign(T.replace(c.args[0], {t.id: T.ZERO})) in ("+", "0", ">="):
                            return True
            if t.val == "sqrt" and any(self.gram(c, t.args[0]) for l in self.levels for c in l.pc if c.op == "lt0"):
                return True
        return self.decide(T.not_(T.eq0(t)))

    @staticmethod
    def gram(c, q):
        """c is |d| < e sqrt(a) sqrt(b) with e <= 1 and q is a b - d^2"""
        p = T.poly(c.args[0])
        if len(p) != 2:
            return False
        d, e = None, None
        for m, k in p.items():
            at = [(T.atom(i), n) for i, n in m]
            if k == 1 and len(at) == 1 and at[0][1] == 1 and at[0][0].op == "ite":
                d = at[0][0].args[1]
                if at[0][0] is not T.abs_(d):
                    return False
            elif -1 <= k < 0 and all(x.op == "app" and x.val == "sqrt" and n == 1 for x, n in at):
                e = T.mul(*[x.args[0] for x, _ in at])
        return d is not None and e is not None and T.ring_zero(T.sub(q, T.sub(e, T.mul(d, d))))

    # --------------------------------------------------- float operations
    def loose(self, name, *vs):
        """some function of the operands, in lax mode"""
        if not self.lax or all(v.t.op == "num" for v in vs):
            return None
        L = self.models.linalg
        key = name + "".join("#%d,%d,%d" % (v.t.id, v.nan.id, v.und.id) for v in vs)
        of = [x for v in vs for x in (v.t, v.nan, v.und)]
        self.assumed.add("of square roots, logarithms and quotients only that they are functions of their operands "
                         "is used in contracts marked as lax")
        return F(L.derived(self, key, "R", *of), L.derived(self, key + "nan", "B", *of))

    def fdiv(self, a, b):
        r = self.loose("quotient", a, b)
        if r is not None:
            return r
        if self.nonzero(b.t):
            i = T.inv_safe(b.t)
            r = fmul(a, F(i, b.nan, b.und,
                          None if b.d is None else T.mul(T.neg(b.d), i, i)))
            return r
        # b == 0
        nan = T.or_(a.nan, b.nan)
        if self.syntactic(nan) is True:
            return F(T.ZERO, T.TRUE)
        if self.nonzero(a.t):
            return F(T.fresh("inf"), nan, T.TRUE)
        return F(T.ZERO, T.TRUE)

    def fsqrt(self, a):
        r = self.loose("root", a)
        if r is not None:
            return r
        if a.t.op == "num" and a.t.val < 0:
            return F(T.ZERO, T.TRUE)
        s = self.sign(a.t)
        if s not in ("+", "0", ">="):
            if self.decide(T.lt0(a.t)):
                return F(T.ZERO, T.TRUE)
        root = self.square_root(a.t)
        if root is not None:
            r = self.fabs(F(root, a.nan, a.und))
            if a.d is None:
                return r
            if self.nonzero(a.t):
                return F(r.t, a.nan, a.und, T.mul(T.num("1/2"), a.d, T.inv_safe(r.t)))
        if a.d is None:
            if s == "0":
                return F(T.ZERO, a.nan, a.und)
            return F(T.app("sqrt", a.t), a.nan, a.und)
        if self.nonzero(a.t):
            r = T.app("sqrt", a.t)
            return F(r, a.nan, a.und, T.mul(T.num("1/2"), a.d, T.inv_safe(r)))
        # kink: bounded difference quotient, value unknown
        return F(T.ZERO, a.nan, a.und, T.fresh("kink"))

    def square_root(self, t):
        """root of a monomial that is a perfect square"""
        if t.op == "sum" or len(T.subterms(t)) > 30:
            return None
        try:
            p = T.reduce_poly(T.poly(T.normal(t)))
        except T.Blowup:
            return None
        if len(p) != 1:
            return None
        (m, c), = p.items()
        a, b = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
        if c <= 0 or a * a != c.numerator or b * b != c.denominator or not m or any(e % 2 for _, e in m):
            return None
        return T.mul(T.num(T.Fraction(a, b)), *[T.ipow(T.atom(x), e // 2) for x, e in m])

    def func(self, name, a):
        """smooth unary function"""
        if name == "sqrt":
            return self.fsqrt(a)
        r = self.loose(name, a)
        if r is not None:
            return r
        x = a.t
        if name == "log":
            if not self.decide(T.lt0(T.neg(x))):
                return F(T.fresh("log"), T.TRUE)
        if name in ("tan",):
            r = T.mul(T.app("sin", x), T.inv_unsafe(T.app("cos", x)))
            return F(r, a.nan, a.und)
        if name == "tanh":
            r = T.app("tanh", x)
        else:
            r = T.app(name, x)
        d = None
        if a.d is not None:
            if name == "exp":
                g = r
            elif name == "log":
                g = T.inv_safe(x)
            elif name == "sin":
                g = T.app("cos", x)
            elif name == "cos":
                g = T.neg(T.app("sin", x))
            elif name == "sinh":
                g = T.app("cosh", x)
            elif name == "cosh":
                g = T.app("sinh", x)
            elif name == "tanh":
                c = T.app("cosh", x)
                g = T.inv_safe(T.mul(c, c))
            elif name == "atan":
                g = T.inv_safe(T.add(T.ONE, T.mul(x, x)))
            elif name == "erf":
                g = T.mul(T.num(2), T.inv_safe(T.app("sqrt", T.sym("pi"))),
                          T.app("exp", T.neg(T.mul(x, x))))
            else:
                raise Unsupported("derivative of " + name)
            d = T.mul(g, a.d)
        return F(r, a.nan, a.und, d)

    def fpow(self, a, b):
        r = self.loose("power", a, b)
        if r is not None:
            return r
        if b.d is not None and b.d is not T.ZERO:
            raise Unsupported("derivative with respect to an exponent")
        nan, und = T.or_(a.nan, b.nan), T.or_(a.und, b.und)
        y = b.t
        if y.op == "num" and y.val.denominator == 1:
            n = int(y.val)
            if n >= 0:
                r = T.ipow(a.t, n)
                d = None if a.d is None else (T.mul(T.num(n), T.ipow(a.t, n - 1), a.d) if n > 0 else T.ZERO)
                return F(r, nan, und, d)
            return self.fdiv(FONE, self.fpow(a, F(T.neg(y))))
        s = self.sign(a.t)
        if s in (None, "!=", "<="):
            if self.decide(T.lt0(a.t)):
                return F(T.fresh("pow"), T.TRUE)
        elif s == "-":
            return F(T.fresh("pow"), T.TRUE)
        if self.nonzero(a.t):
            d = None
            if y.op == "num" and y.val.denominator == 2:
                q, n = T.app("sqrt", a.t), int(y.val * 2)
                if a.d is not None:
                    d = T.mul(y, T.ipow(q, n - 2), a.d)
                return F(T.ipow(q, n), nan, und, d)
            if a.d is not None:
                d = T.mul(y, T.app("pow", a.t, T.sub(y, T.ONE)), a.d)
            return F(T.app("pow", a.t, y), nan, und, d)
        # 0^y
        sy = self.sign(y)
        if sy is None or sy in (">=", "<=", "!="):
            if self.decide(T.lt0(T.neg(y))):
                sy = "+"
            elif self.decide(T.lt0(y)):
                sy = "-"
            else:
                sy = "0"
        d = None if a.d is None else T.fresh("kink")
        if sy == "+":
            return F(T.ZERO, nan, und, d)
        if sy == "0":
            return F(T.ONE, nan, und, d)
        return F(T.fresh("inf"), nan, T.TRUE, d)

    def fabs(self, a):
        if a.t.op == "num":
            return a if a.t.val >= 0 else fneg(a)
        s = self.sign(a.t)
        if s in ("+", ">=", "0"):
            return a
        if s in ("-", "<="):
            return fneg(a)
        if self.opts.get("lazy_abs", True) and a.d is None:
            return F(T.abs_(a.t), a.nan, a.und)
        return fneg(a) if self.decide(T.lt0(a.t)) else a

    def fcmp(self, op, a, b):
        """-> Bool term; IEEE semantics for NaN"""
        bad = T.or_(a.nan, b.nan)
        und = T.or_(a.und, b.und)
        if op == "<":
            c = T.lt(a.t, b.t)
        elif op == "<=":
            c = T.le(a.t, b.t)
        elif op == ">":
            c = T.lt(b.t, a.t)
        elif op == ">=":
            c = T.le(b.t, a.t)
        elif op == "==":
            c = T.eq(a.t, b.t)
        elif op == "!=":
            c = T.or_(T.not_(T.eq(a.t, b.t)), bad)
            if und is not T.FALSE:
                c = T.ite(und, T.fresh("cmp", "B"), c)
            return c
        if und is not T.FALSE:
            c = T.ite(und, T.fresh("cmp", "B"), c)
        return T.and_(T.not_(bad), c)

    # --------------------------------------------------------------- heap
    def alloc(self, v):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = v
        return Loc(a)

    def getp(self, v, p, path_so_far=None):
        if isinstance(p, str):
            if isinstance(v, Struct):
                if p not in v.f:
                    raise Unsupported("no field %s in %s" % (p, self.p.recs[v.rec]["name"]))
                return v.f[p]
            if isinstance(v, Opq):
                if p in v.f:
                    return v.f[p]
                raise Unsupported("field %s of opaque %s" % (p, v.cls))
            raise Unsupported("field %s of %s" % (p, type(v).__name__))
        if isinstance(p, tuple):       # ("pair", i)
            return v.v[p[1]]
        if isinstance(v, Arr):
            return arr_get(v, p)
        if isinstance(v, Tens):
            return self.tens_index(v, p)
        if isinstance(v, Opq):
            return self.models.opq_index(self, v, p)
        raise Unsupported("index into " + type(v).__name__)

    def tens_index(self, v, p):
        n = v.dim ** (v.rank - 1)
        if p.op == "num":
            i = int(p.val)
            self.component(p, v.dim)
            part = v.c[i * n:(i + 1) * n]
            return part[0] if v.rank == 1 else Tens(v.rank - 1, v.dim, part)
        self.component(p, v.dim)
        r = None
        for i in range(v.dim):
            w = self.tens_index(v, T.num(i, "I"))
            r = w if r is None else merge(T.eq(p, T.num(i, "I")), w, r)
        return r

    def load(self, loc):
        if loc.addr not in self.heap:
            # made on a path that has been left since
            if loc.addr not in self.families:
                raise Unsupported("dangling reference")
            self.heap[loc.addr] = self.families[loc.addr](())
        v = self.heap[loc.addr]
        for p in loc.path:
            v = self.getp(v, p)
        return v

    def setp(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(p, str):
            if isinstance(v, Struct):
                f = dict(v.f)
                f[p] = self.setp(v.f[p], path[1:], new) if len(path) > 1 else new
                return Struct(v.rec, f)
            if isinstance(v, Opq):
                f = dict(v.f)
                f[p] = self.setp(v.f[p], path[1:], new) if len(path) > 1 else new
                return Opq(v.key, v.cls, f)
            raise Unsupported("store to field of " + type(v).__name__)
        if isinstance(p, tuple):
            l = list(v.v)
            l[p[1]] = self.setp(l[p[1]], path[1:], new)
            return Pair(l)
        if isinstance(v, Arr):
            if len(path) == 1:
                return arr_set(v, p, new)
            return arr_set(v, p, self.setp(arr_get(v, p), path[1:], new))
        if isinstance(v, Tens):
            return self.tens_set(v, path, new)
        raise Unsupported("store into " + type(v).__name__)

    def component(self, p, dim):
        """the component index of a tensor is in range"""
        c = T.and_(T.le(T.IZERO, p), T.lt(p, T.num(dim, "I")))
        if c is T.TRUE or (c is not T.FALSE and self.known(c) is True):
            return
        self.add_obl("tensor component in range", c, "")
        if c is T.FALSE:
            raise Infeasible()

    def tens_set(self, v, path, new):
        idx = []
        for p in path:
            self.component(p, v.dim)
            if p.op != "num":
                # symbolic component: merge over all
                r = v
                k = len(idx)
                for i in range(v.dim):
                    q = path[:k] + (T.num(i, "I"),) + path[k + 1:]
                    w = self.tens_set(r, q, new)
                    r = merge(T.eq(p, T.num(i, "I")), w, r)
                return r
            idx.append(int(p.val))
        c = list(v.c)
        sub = v.dim ** (v.rank - len(idx))
        off = 0
        for i in idx:
            off = off * v.dim + i
        off *= sub
        if isinstance(new, Tens):
            c[off:off + sub] = new.c
        else:
            if sub != 1:
                new = self.as_tens(new, v.rank - len(idx), v.dim)
                c[off:off + sub] = new.c
            else:
                c[off] = new
                if v.sym:
                    if v.rank == 2:
                        i, j = idx
                        c[j * v.dim + i] = new
                    elif v.rank == 4:
                        i, j, k, l = idx
                        d = v.dim
                        for a, b in ((i, j), (j, i)):
                            for e, g in ((k, l), (l, k)):
                                c[((a * d + b) * d + e) * d + g] = new
        return Tens(v.rank, v.dim, c, v.sym)

    def as_tens(self, v, rank, dim, sym=False):
        if isinstance(v, Tens):
            return v
        if isinstance(v, F):       # assignment of a scalar (zero)
            return Tens(rank, dim, [v] * dim ** rank, sym)
        raise Unsupported("tensor from " + type(v).__name__)

    def store(self, loc, v):
        if loc.addr not in self.heap:
            if loc.addr not in self.families:
                raise Unsupported("store to dangling reference")
            self.heap[loc.addr] = self.families[loc.addr](())
        if self.writes is not None:
            self.note_write(loc)
        self.heap[loc.addr] = self.setp(self.heap[loc.addr], loc.path, v)

    def note_write(self, loc):
        # root: prefix of the path made of field names only
        root = []
        for p in loc.path:
            if isinstance(p, str):
                root.append(p)
            else:
                break
        self.writes.add((loc.addr, tuple(root)))

    def val(self, x):
        return self.load(x) if isinstance(x, Loc) else x

    # -------------------------------------------------------- types/values
    def ty(self, tid):
        return self.p.types[tid]

    def strip_ref(self, tid):
        t = self.p.types[tid]
        if t["k"] == "ref":
            return t["to"]
        return tid

    def rec_of(self, tid):
        t = self.p.types[self.strip_ref(tid)]
        return self.p.recs[t["rec"]] if t["k"] == "rec" else None

    def targ_type(self, rec, i):
        return rec["args"][i]["t"]

    def targ_int(self, rec, i):
        return rec["args"][i]["i"]

    def mkval(self, tid, name, args=()):
        """an arbitrary value of type tid, determined by (name, args)"""
        t = self.ty(tid)
        k = t["k"]
        if k == "ref":
            return self.mkval(t["to"], name, args)
        if k == "float":
            return F(T.sym(name, "R", args))
        if k in ("int", "enum"):
            s = T.sym(name, "I", args)
            if k == "int" and t.get("uns"):
                self.nonneg(s)
            return s
        if k == "bool":
            return T.sym(name, "B", args)
        if k == "array":
            return Arr(T.num(t["n"], "I"), lambda i: self.mkval(t["to"], name + "[]", args + (i,)))
        if k == "ptr":
            # pointer to an arbitrary object of its own
            return self.fresh_pointee(t["to"], name, args)
        if k == "rec":
            return self.mkrec(t["rec"], tid, name, args)
        raise Unsupported("arbitrary value of type " + t["s"])

    def nonneg(self, s):
        if self.universal and s.op == "sym" and s.args and s.val[0] != "$":
            prover.non_negative(s.val)
            return
        c = T.le0(T.neg(s))
        lv = self.level_of(c)
        self.levels[lv].assume(c)

    def fresh_pointee(self, tid, name, args):
        key = ("fam", name, self.ty(tid)["s"])
        if args:
            n = len(args)
            if key not in self.heap:
                def build(a):
                    if len(a) == n:
                        return self.mkval(tid, name, a)
                    return Arr(T.sym(name + ".n"), lambda i, a=a: build(a + (i,)))
                self.families[key] = build
                self.heap[key] = build(())
            return Ptr(Loc(key, tuple(args)))
        if key not in self.heap:
            self.heap[key] = self.mkval(tid, name, ())
        return Ptr(Loc(key))

    def mkrec(self, rid, tid, name, args):
        r = self.p.recs[rid]
        n = r["name"]
        m = self.models.mkrec(self, r, tid, name, args)
        if m is not None:
            return m
        if r["mine"] and not r["lambda"] and not self.p.is_opaque_rec(rid):
            f = {}
            self.collect_fields(rid, f, name, args)
            return Struct(rid, f)
        return Opq(T.sym(name, "O", args), n)

    def collect_fields(self, rid, f, name, args):
        r = self.p.recs[rid]
        for b in r.get("bases", []):
            br = self.p.types[b]["rec"]
            if self.p.recs[br]["mine"]:
                self.collect_fields(br, f, name, args)
        for fl in r["fields"]:
            ft = self.ty(fl["t"])
            try:
                f[fl["n"]] = self.mkval(fl["t"], name + "." + fl["n"], args)
            except Unsupported:
                f[fl["n"]] = Opq(T.sym(name + "." + fl["n"], "O", args), "?")

    # -------------------------------------------------------------- frames
    def call_fun(self, fid, args, this, closure):
        """args: list of Loc (bound) or values"""
        f = self.p.funs[fid]
        if "body" not in f:
            raise Unsupported("no body: " + f["full"])
        if f["mine"] and f["file"].startswith("/repo"):
            self.funs_used[f["full"]] = "%s:%d" % (f["file"], f["line"])
        old = self.frame
        if self.depth() > 200:
            raise Unsupported("recursion")
        fr = {"vars": {}, "this": this, "fun": f, "up": old, "depth": (old["depth"] + 1) if old else 0}
        if closure is not None:
            fr["vars"].update(closure.caps)
            fr["this"] = closure.this
        for p, a in zip(f["params"], args):
            if self.ty(p["t"])["k"] == "ref":
                fr["vars"][p["id"]] = a if isinstance(a, Loc) else self.alloc(a)
            else:
                fr["vars"][p["id"]] = self.alloc(self.val(a))
        self.frame = fr
        try:
            if f.get("ctor"):
                self.run_inits(f, this)
            self.exec(f["body"])
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.frame = old
        if f.get("ctor"):
            return None
        return r

    def depth(self):
        return self.frame["depth"] if self.frame else 0

    def run_inits(self, f, this):
        for i in f.get("inits", []):
            if "m" in i:
                fl = self.field_decl(f["rec"], i["m"])
                ft = self.ty(fl["t"]) if fl else None
                if ft is not None and ft["k"] == "ref":
                    v = self.ev(i["e"])
                    v = v if isinstance(v, Loc) else self.alloc(v)
                elif i["e"] is None:
                    continue
                else:
                    v = self.init_value(i["e"], fl["t"] if fl else None)
                self.store(this.at(i["m"]), v)
            elif "base" in i:
                b = self.p.types[i["base"]]
                if b["k"] == "rec" and self.p.recs[b["rec"]]["mine"] and i["e"] and i["e"]["k"] == "ctor":
                    e = i["e"]
                    g = self.p.funs[e["f"]]
                    if "body" in g:
                        self.call_fun(e["f"], self.args(g, e["args"]), this, None)
                elif b["k"] == "rec" and self.p.recs[b["rec"]]["name"] in ("dealii::Function", "dealii::TensorFunction"):
                    k = 1 if self.p.recs[b["rec"]]["name"] == "dealii::Function" else 0
                    a = [self.rv(x) for x in i["e"]["args"]] if i["e"] and i["e"]["k"] == "ctor" else []
                    self.store(this.at("~time"), self.models.as_f(a[k]) if len(a) > k else FZERO)
            elif "deleg" in i:
                e = i["e"]
                g = self.p.funs[e["f"]]
                self.call_fun(e["f"], self.args(g, e["args"]), this, None)

    def field_decl(self, rid, name):
        r = self.p.recs[rid]
        for fl in r.get("fields", []):
            if fl["n"] == name:
                return fl
        for b in r.get("bases", []):
            t = self.p.types[b]
            if t["k"] == "rec":
                x = self.field_decl(t["rec"], name)
                if x:
                    return x
        return None

    def args(self, f, nodes):
        r = []
        for p, a in zip(f["params"], nodes):
            t = self.ty(p["t"])
            if t["k"] == "ref":
                v = self.ev(a)
                if not isinstance(v, Loc):
                    v = self.alloc(v)
                r.append(v)
            else:
                r.append(self.rv(a))
        for a in nodes[len(f["params"]):]:
            r.append(self.rv(a))
        return r

    def rv(self, node):
        v = self.ev(node)
        return self.load(v) if isinstance(v, Loc) else v

    def lv(self, node):
        v = self.ev(node)
        return v if isinstance(v, Loc) else self.alloc(v)

    def init_value(self, e, tid):
        """value of an initialiser"""
        v = self.ev(e)
        if isinstance(v, Loc):
            v = self.load(v)
        return self.convert(v, tid)

    def convert(self, v, tid):
        if tid is None:
            return v
        t = self.ty(tid)
        if t["k"] == "float" and isinstance(v, T.Term):
            return F(T.i2r(v)) if v.sort != "B" else F(T.ite(v, T.ONE, T.ZERO))
        if t["k"] in ("int", "enum") and isinstance(v, T.Term) and v.sort == "B":
            return T.ite(v, T.IONE, T.IZERO)
        if t["k"] == "bool" and isinstance(v, T.Term) and v.sort == "I":
            return T.not_(T.eq0(v))
        return v

    # ---------------------------------------------------------- statements
    def exec(self, s):
        if s is None:
            return
        if self.frame is not None:
            self.frame["line"] = s.get("l")
        getattr(self, "s_" + s["k"])(s)

    def s_block(self, s):
        for x in s["body"]:
            self.exec(x)

    def s_null(self, s):
        pass

    def s_unsup(self, s):
        raise Unsupported("statement " + s.get("what", "?"))

    def s_expr(self, s):
        if self.lax and self.quiet(s):
            return
        self.ev(s["e"])

    def quiet(self, s):
        """the statement only reports"""
        r = s.get("~quiet")
        if r is None:
            s["~quiet"] = False         # recursive functions are not quiet
            r = s["~quiet"] = self.quiet_(s)
        return r

    def quiet_(self, s):
        k = s["k"]
        if k == "block":
            return all(self.quiet(x) for x in s["body"])
        if k == "null":
            return True
        if k == "if":
            return not s.get("init") and not s.get("cv") and self.harmless(s["c"]) and self.quiet(s["a"]) and \
                (not s.get("b") or self.quiet(s["b"]))
        if k == "decls":
            return all((d.get("init") is None or self.harmless(d["init"])) and not d.get("static") for d in s["d"])
        if k != "expr":
            return False
        e = s["e"]
        while e["k"] in ("cast", "temp", "paren"):
            e = e["e"]
        if e["k"] == "mcall":
            f = self.p.funs[e["f"]]
            rec = self.p.recs[f["rec"]]["name"] if f.get("rec") is not None else ""
            if rec in self.models.linalg.REPORTS or rec == "dealii::TableHandler" and not self.count_rows:
                return all(self.harmless(a) for a in e["args"])
            if f.get("mine") and "body" in f and not f.get("virtual"):
                return all(self.harmless(a) for a in e["args"]) and all(self.quiet(x) for x in self.stmts(f["body"]))
        if e["k"] == "call":
            f = self.p.funs[e["f"]]
            if f["name"].split("::")[-1].startswith("operator<<"):
                return self.is_stream(e["args"][0]) and all(self.harmless(a) for a in e["args"])
        return False

    def is_stream(self, e):
        t = self.ty(e["t"])
        while t["k"] == "ref":
            t = self.ty(t["to"])
        return t["k"] == "rec" and self.p.recs[t["rec"]]["name"] in ("std::basic_ostream", "dealii::ConditionalOStream")

    def stmts(self, b):
        return b["body"] if b["k"] == "block" else [b]

    def harmless(self, n):
        """evaluation changes nothing"""
        if isinstance(n, list):
            return all(self.harmless(x) for x in n)
        if not isinstance(n, dict):
            return True
        k = n.get("k")
        if k in ("cassign", "new", "throw", "lambda", "delete", "icall"):
            return False
        if k == "bin" and n["op"] == "=":
            return False
        if k == "un" and n["op"] in ("++", "--"):
            return False
        if k == "mcall":
            f = self.p.funs[n["f"]]
            rec = self.p.recs[f["rec"]]["name"] if f.get("rec") is not None else ""
            if not f.get("const") and not (rec in ("dealii::Vector", "std::basic_ostream", "dealii::ConditionalOStream") and
                                           f["name"].split("::")[-1].startswith("operator")):
                return False
        if k == "call":
            f = self.p.funs[n["f"]]
            if f.get("mine"):
                return False
            if not f["name"].startswith("std::") and "::operator" not in f["name"] and "::" in f["name"]:
                return False
            if f["name"] in ("std::swap", "std::move") or f["name"].endswith("operator>>"):
                return False
        return all(self.harmless(v) for x, v in n.items() if isinstance(v, (dict, list)))

    def raises(self, s):
        """the statement is the report of a failed assertion"""
        b = [x for x in self.stmts(s) if x["k"] != "null"]
        if len(b) != 1 or b[0]["k"] != "expr":
            return False
        e = b[0]["e"]
        while e["k"] in ("cast", "temp", "paren"):
            e = e["e"]
        return e["k"] == "call" and "issue_error" in self.p.funs[e["f"]]["name"]

    def merged_if(self, s):
        """an undecided condition of which only numbers depend"""
        if s.get("init") or s.get("cv") or not self.harmless(s["c"]):
            return False
        if self.quiet(s):
            return True
        sets = []
        for b in ("a", "b"):
            for x in self.stmts(s[b]) if s.get(b) else []:
                if self.quiet(x):
                    continue
                if x["k"] != "expr" or not (x["e"]["k"] == "cassign" or x["e"]["k"] == "bin" and x["e"]["op"] == "="):
                    return False
                e = x["e"]
                if e["a"]["k"] != "var" or self.ty(e["a"]["t"])["k"] not in ("float", "bool") or not self.harmless(e["b"]):
                    return False
                sets.append((b == "a", e))
        c = self.boolean(self.rv(s["c"]))
        if self.known(c) is not None:
            return False
        for then, e in sets:
            l = self.lv(e["a"])
            old = self.load(l)
            self.ev(e)
            new = self.load(l)
            self.store(l, merge(c, new, old) if then else merge(c, old, new))
        return True

    def s_decls(self, s):
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        t = self.ty(d["t"])
        self.frame.setdefault("names", {})[d.get("n")] = d["id"]
        if d.get("static"):
            key = d["id"]
            if key in self.statics:
                self.frame["vars"][d["id"]] = self.statics[key]
                return
        if t["k"] == "ref":
            v = self.ev(d["init"])
            self.frame["vars"][d["id"]] = v if isinstance(v, Loc) else self.alloc(v)
        else:
            if d.get("init") is not None:
                v = self.init_value(d["init"], d["t"])
            else:
                v = self.uninit(d["t"], d["n"])
            l = self.frame["vars"][d["id"]] = self.alloc(v)
            if t["k"] == "int" and t.get("uns"):
                self.unsigned.add(l.addr)
            else:
                self.unsigned.discard(l.addr)
        if d.get("static"):
            self.statics[d["id"]] = self.frame["vars"][d["id"]]

    def uninit(self, tid, name):
        t = self.ty(tid)
        if t["k"] in ("float", "int", "bool", "enum", "ptr", "array"):
            n = T.fresh_name("uninit_" + name)
            if t["k"] == "ptr":
                return NULL
            v = self.mkval(tid, n)
            if len(self.levels) > 1:
                self.levels[-1].syms.add(n)
            return v
        return self.mkval(tid, T.fresh_name("uninit_" + name))

    def s_if(self, s):
        if self.lax and self.merged_if(s):
            return
        if self.lax and self.expect_throw and not s.get("b") and self.raises(s["a"]):
            # nothing is said about what it leaves behind when it gives up
            c = self.boolean(self.rv(s["c"])) if self.harmless(s["c"]) else None
            if c is not None and self.known(c) is None:
                self.assume(T.not_(c))
                return
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        if self.truth(s["c"]):
            self.exec(s["a"])
        elif s.get("b"):
            self.exec(s["b"])

    def truth(self, node):
        """evaluates a condition with short circuit, deciding each atom"""
        n = node
        while n["k"] == "cast" and n["ck"] in ("NoOp", "LValueToRValue") and n["e"]["k"] in ("bin", "un"):
            n = n["e"]
        if n["k"] == "bin" and n["op"] == "&&":
            return self.truth(n["a"]) and self.truth(n["b"])
        if n["k"] == "bin" and n["op"] == "||":
            return self.truth(n["a"]) or self.truth(n["b"])
        if n["k"] == "un" and n["op"] == "!":
            return not self.truth(n["a"])
        v = self.rv(node)
        return self.decide(self.boolean(v))

    def boolean(self, v):
        if isinstance(v, T.Term):
            if v.sort == "B":
                return v
            return T.not_(T.eq0(v))
        if isinstance(v, F):
            return T.or_(T.not_(T.eq0(v.t)), v.nan, v.und)
        if isinstance(v, Ptr):
            return T.boolc(v.loc is not None)
        if isinstance(v, Closure):
            return T.TRUE
        raise Unsupported("condition of type " + type(v).__name__)

    def s_return(self, s):
        if not s.get("e"):
            raise ReturnEx(None)
        f = self.frame["fun"]
        rt = self.ty(f["ret"])
        v = self.ev(s["e"])
        if rt["k"] == "ref":
            raise ReturnEx(v if isinstance(v, Loc) else self.alloc(v))
        v = self.val(v)
        raise ReturnEx(self.convert(v, f["ret"]))

    def s_break(self, s):
        raise BreakEx()

    def s_continue(self, s):
        raise ContinueEx()

    def s_switch(self, s):
        v = self.rv(s["c"])
        body = s["body"]["body"]
        flat = []           # list of (labels, stmt)
        for st in body:
            labels = []
            while st is not None and st["k"] in ("case", "default"):
                labels.append(self.rv(st["v"]) if st["k"] == "case" else None)
                st = st["s"]
            flat.append((labels, st))
        start = None
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if l is not None and start is None and self.decide(T.eq(v, l)):
                    start = i
            if start is not None:
                break
        if start is None:
            for i, (labels, _) in enumerate(flat):
                if None in labels:
                    start = i
        if start is None:
            return
        try:
            for _, st in flat[start:]:
                self.exec(st)
        except BreakEx:
            pass

    def s_case(self, s):
        self.exec(s["s"])

    s_default = s_case

    def s_try(self, s):
        # what the library throws in there is not modelled
        self.assumed.add("the library routines called within try blocks do not throw")
        try:
            self.exec(s["body"])
        except ThrowEx:
            raise Unsupported("exception thrown in a try block")

    # --------------------------------------------------------------- loops
    LIMIT = 400

    def s_for(self, s):
        if s.get("init"):
            self.exec(s["init"])
        ind = self.induction(s)
        if ind is None:
            return self.generic_loop(s.get("c"), s["body"], s.get("inc"), s)
        vid, op, bound_node, flip, step = ind
        loc = self.frame["vars"].get(vid)
        if loc is None:
            return self.generic_loop(s.get("c"), s["body"], s.get("inc"), s)
        v0 = self.load(loc)
        if isinstance(v0, Iter):
            return self.iter_loop(s, loc, v0, op, bound_node, step)
        if isinstance(v0, Opq):
            return self.models.opaque_for(self, s, loc, v0, op, bound_node, step)
        if not isinstance(v0, T.Term):
            return self.generic_loop(s.get("c"), s["body"], s.get("inc"), s)
        b = self.rv(bound_node)
        if not isinstance(b, T.Term):
            return self.generic_loop(s.get("c"), s["body"], s.get("inc"), s)
        if T.sub(v0, b).op == "num" or step != 1 or op not in ("<", "!=", "<="):
            return self.unroll(s.get("c"), s["body"], s.get("inc"), s)
        hi = b if op in ("<", "!=") else T.add(b, T.IONE)
        if op == "!=":
            self.assume_or_check(T.le(v0, hi), "loop counter starts below its bound")
        la = self.models.linalg
        if self.pointwise and v0 is T.IZERO and hi is la.N_DOFS:
            la.one(self, s, T.TRUE, lambda: self.store(loc, la.DOF), [(loc.addr, loc.path)])
        else:
            self.sym_loop(s, v0, hi, loc, lambda k: self.store(loc, k), s["body"], bound_node)
        end = T.ite(T.le(v0, hi), hi, v0)
        self.store(loc, end)

    def assume_or_check(self, c, what):
        if self.known(c) is True:
            return
        self.add_obl(what, c, what)

    def induction(self, s):
        """for (..; i OP bound; ++i) -> (var id, op, bound node, ...)"""
        c, inc = s.get("c"), s.get("inc")
        if c is None or inc is None:
            return None

        def strip(n):
            while n["k"] in ("cast", "temp") and n.get("ck") != "UserDefinedConversion":
                n = n["e"]
            return n

        def var(n):
            n = strip(n)
            return n["id"] if n["k"] == "var" else None
        i = strip(inc)
        step = 1
        if i["k"] == "un" and i["op"] in ("++", "--"):
            v = var(i["a"])
            step = 1 if i["op"] == "++" else -1
        elif i["k"] == "mcall" and self.p.funs[i["f"]]["name"].endswith(("operator++", "operator--")):
            v = var(i["obj"])
            step = 1 if self.p.funs[i["f"]]["name"].endswith("operator++") else -1
        elif i["k"] == "call" and self.p.funs[i["f"]]["name"].endswith("operator++"):
            v = var(i["args"][0])
        elif i["k"] == "cassign" and i["op"] == "+":
            v = var(i["a"])
            b = strip(i["b"])
            if b["k"] != "lit":
                return None
            step = b["v"]
        else:
            return None
        if v is None:
            return None
        c = strip(c)
        if c["k"] == "bin" and c["op"] in ("<", "<=", "!=", ">", ">="):
            a, b, op = c["a"], c["b"], c["op"]
        elif c["k"] in ("call", "mcall"):
            nm = self.p.funs[c["f"]]["name"].split("::")[-1]
            if not nm.startswith("operator") or nm[8:] not in ("<", "<=", "!=", ">"):
                return None
            op = nm[8:]
            if c["k"] == "call":
                a, b = c["args"][0], c["args"][1]
            else:
                a, b = c["obj"], c["args"][0]
        else:
            return None
        if var(a) == v:
            return v, op, b, False, step
        if var(b) == v:
            return v, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op], a, True, step
        return None

    def unroll(self, c, body, inc, s):
        n = 0
        while True:
            if c is not None:
                v = self.boolean(self.rv(c))
                r = self.known(v)
                if r is None:
                    return self.generic_loop(c, body, inc, s)
                if not r:
                    return
            try:
                self.exec(body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc is not None:
                self.ev(inc)
            n += 1
            if n > self.LIMIT:
                raise Unsupported("unrolling limit")

    def s_while(self, s):
        call = self.models.find_call(self, s["c"], "getline")
        if call is not None:
            A = call["args"]
            src = self.val(self.ev(A[0]))
            if isinstance(src, Opq) and src.cls == "file":
                return self.lines_loop(s, src, self.lv(A[1]))
            if isinstance(src, Opq) and src.cls == "fields":
                for _ in range(12):
                    if not self.truth(s["c"]):
                        return
                    try:
                        self.exec(s["body"])
                    except BreakEx:
                        return
                    except ContinueEx:
                        pass
                raise Unsupported("loop over the fields of a line")
        body = s["body"]["body"] if s["body"]["k"] == "block" else []
        if len(body) > 1 and body[-1]["k"] == "expr" and not self.continues(body):
            # a counting loop
            f = {**s, "k": "for", "init": None, "inc": body[-1]["e"],
                 "body": {**s["body"], "body": body[:-1]}}
            if self.induction(f) is not None:
                return self.s_for(f)
        self.generic_loop(s["c"], s["body"], None, s)

    def continues(self, x):
        if isinstance(x, list):
            return any(self.continues(y) for y in x)
        if isinstance(x, dict):
            return x.get("k") == "continue" or any(self.continues(y) for y in x.values() if isinstance(y, (dict, list)))
        return False

    def lines_loop(self, s, src, loc):
        """`rows` counts the lines before the first blank one"""
        name = src.f["name"]
        if src.f["read"]:
            raise Unsupported("second loop over a file")
        n = T.sym("rows(%s)" % name, "I")
        self.nonneg(n)

        blank = lambda k: T.sym("blank(%s)" % name, "B", (k,))

        self.sym_loop(s, T.IZERO, n, loc, lambda k: self.store(loc, Text(name, k)), s["body"], None, lambda k: T.not_(blank(k)))
        # a blank line after them has no effect
        self.assume(blank(n))
        heap, before, self.writes = dict(self.heap), self.writes, set()
        self.store(loc, Text(name, n))
        outcome = None
        try:
            self.exec(s["body"])
        except (BreakEx, ContinueEx, ReturnEx, ThrowEx) as e:
            outcome = e
        effects = [w for w in self.writes if w[0] in heap and w[0] != loc.addr]
        self.writes = None if before is None else self.writes | before
        if effects or not isinstance(outcome, BreakEx):
            if self.decide(T.sym("followed_by_blank(%s)" % name, "B")):
                if outcome is None or isinstance(outcome, ContinueEx):
                    raise Unsupported("lines after a blank one")
                if not isinstance(outcome, BreakEx):
                    raise outcome
            else:
                self.heap = heap
        self.store(loc, Str(None))
        self.assumed.add("a file is read up to its first blank line; its entries are numbers")

    def s_do(self, s):
        self.generic_loop(s["c"], s["body"], None, s, do=True)

    def iter_loop(self, s, loc, v0, op, bound_node, step):
        b = self.rv(bound_node)
        if not isinstance(b, Iter) or op != "!=" or step != 1:
            raise Unsupported("iterator loop")
        if T.sub(b.i, v0.i).op == "num":
            return self.unroll_iter(s, loc, b)
        self.sym_loop(s, v0.i, b.i, loc, lambda k: self.store(loc, Iter(v0.loc, k)), s["body"], None)
        self.store(loc, Iter(v0.loc, T.ite(T.le(v0.i, b.i), b.i, v0.i)))

    def unroll_iter(self, s, loc, b):
        n = int(T.sub(b.i, self.load(loc).i).val)
        for _ in range(n):
            try:
                self.exec(s["body"])
            except BreakEx:
                return
            except ContinueEx:
                pass
            v = self.load(loc)
            self.store(loc, Iter(v.loc, T.add(v.i, T.IONE)))

    def s_rfor(self, s):
        r = self.ev(s["range"])
        v = self.val(r)
        d = s["var"]

        def bind_elem(x):
            if self.ty(d["t"])["k"] == "ref":
                self.frame["vars"][d["id"]] = x if isinstance(x, Loc) else self.alloc(x)
            else:
                self.frame["vars"][d["id"]] = self.alloc(self.val(x))
            for h in s.get("hold", []) or []:
                self.declare(h)
        if isinstance(v, T.Term) and v.sort == "B":
            return self.models.linalg.loop(self, s, v, bind_elem)
        seq = self.models.as_sequence(self, v, r)
        if seq is None:
            raise Unsupported("range-for over " + type(v).__name__)
        n, at = seq
        if n.op == "num":
            if n.val > self.LIMIT:
                raise Unsupported("unrolling limit")
            for i in range(int(n.val)):
                bind_elem(at(T.num(i, "I")))
                try:
                    self.exec(s["body"])
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            return
        self.sym_loop(s, T.IZERO, n, None, lambda k: bind_elem(at(k)), s["body"], None)

    # symbolic loop -----------------------------------------------------
    def explore(self, level, thunk, dead=None):
        """all local paths of thunk at this level -> list of (cond list, heap,
        obligations)"""
        out = []
        level.trail = []
        H0 = self.heap
        base_pc, base_set = list(level.pc), dict(level.pcset)
        fr = dict(self.frame["vars"])
        saved_obl = self.path_obl
        while True:
            level.pos = 0
            level.pc, level.pcset = list(base_pc), dict(base_set)
            self.heap = dict(H0)
            self.frame["vars"] = dict(fr)
            self.path_obl = []
            level.decided = []
            thunk()
            if not getattr(self, "_dead", False):
                out.append((level.pc[len(base_pc):], self.heap, self.path_obl))
            elif dead is not None:
                dead.append((level.pc[len(base_pc):], self.heap, self.path_obl))
            self._dead = False
            if not self.backtrack(level):
                break
            if len(out) > 600:
                raise Unsupported("too many paths in a loop body")
        level.pc, level.pcset = base_pc, base_set
        self.heap = H0
        self.frame["vars"] = fr
        self.path_obl = saved_obl
        return out

    def havoc(self, v, name, args, syms):
        """arbitrary value of the same shape"""
        if isinstance(v, F):
            n = name
            syms.add(n)
            return F(T.sym(n, "R", args), d=None if v.d is None else T.sym(n + "'", "R", args))
        if isinstance(v, T.Term):
            syms.add(name)
            return T.sym(name, v.sort, args)
        if isinstance(v, Tens):
            cs = []
            for i, c in enumerate(v.c):
                cs.append(self.havoc(c, "%s#%d" % (name, i), args, syms))
            if v.sym and v.rank == 2:
                d = v.dim
                for i in range(d):
                    for j in range(i):
                        cs[i * d + j] = cs[j * d + i]
            return Tens(v.rank, v.dim, cs, v.sym)
        if isinstance(v, Struct):
            return Struct(v.rec, {k: self.havoc(x, name + "." + k, args, syms) for k, x in v.f.items()})
        if isinstance(v, Arr):
            n = self.havoc(v.n, name + "#n", args, syms)
            # shapes are uniform: learn the element shape at a generic index
            probe = T.sym("$probe", "I")

            def elem(i, v=v):
                try:
                    sh = arr_get(v, i)
                except Unsupported:
                    sh = v.base(i)
                return self.havoc(sh, name + "[]", args + (i,), syms)
            elem(probe)
            return Arr(n, elem, (), None if v.cols is None else self.havoc(v.cols, name + "#c", args, syms), v.kind)
        if isinstance(v, Pair):
            return Pair([self.havoc(x, "%s#%d" % (name, i), args, syms) for i, x in enumerate(v.v)])
        if isinstance(v, Opq):
            syms.add(name)
            return Opq(T.sym(name, "O", args), v.cls, {k: x for k, x in v.f.items() if k in ("base", "n") and isinstance(x, T.Term)})
        if isinstance(v, Str):
            return Str(None)
        if isinstance(v, Ptr) and self.precise and v.loc is not None:
            # points to an arbitrary object of the same type
            return Ptr(self.alloc(self.havoc(self.load(v.loc), name + "*", args, syms)))
        if isinstance(v, (Ptr, Closure, Loc, FnRef)):
            return v
        raise Unsupported("loop modifies a " + type(v).__name__)

    def merged(self, thunk):
        """all the ways through the thunk at once: what it leaves behind is a
        case distinction"""
        lev = Level(set())
        lev.all = True
        where = None
        ways, raising, H0, inmost, writes = [], [], self.heap, self.inmost, self.writes
        self.levels.append(lev)
        self.inmost = len(self.levels) - 1
        self.writes = set() if writes is None else writes

        def one():
            nonlocal where
            try:
                r = thunk()
                ways.append((list(lev.decided), r))
            except Infeasible:
                self._dead = True
            except ThrowEx as e:
                if not self.expect_throw:
                    raise Unsupported("exception in a loop over degrees of freedom")
                where = e.where
                raising.append(T.and_(*lev.decided))
                self._dead = True
        try:
            paths = self.explore(lev, one)
        finally:
            self.levels.pop()
            self.inmost, self.writes = inmost, writes
            self.heap = H0
        for x in raising:
            # nothing is said about what it leaves behind when it gives up
            if self.lax:
                self.assume(T.not_(x))
            elif self.decide(x):
                raise ThrowEx(where)
        if not paths:
            raise Infeasible()
        heap = dict(H0)
        for _, H, _ in paths:
            heap.update((a, v) for a, v in H.items() if a not in H0)
        for a in H0:
            if any(H[a] is not H0[a] for _, H, _ in paths):
                v = None
                for (_, H, _), (dec, _) in reversed(list(zip(paths, ways))):
                    v = H[a] if v is None else v if v is H[a] else merge(T.and_(*dec), H[a], v)
                heap[a] = v
        self.heap = heap
        for (pc, _, obl), (dec, _) in zip(paths, ways):
            for o in obl:
                base = self.pc() if len(self.levels) == 1 else self.local_pc()
                self.path_obl.append(Obligation(o.name, base + pc + o.pc, o.goal, o.where))
            for x in pc:
                if not any(x is y for y in dec):
                    self.assume(T.or_(T.not_(T.and_(*dec)), x))
        result = None
        for dec, r in reversed(ways):
            result = r if result is None or result is r else merge(T.and_(*dec), r, result)
        return result

    def sym_loop(self, s, lo, hi, loc, setk, body, bound_node, given=None):
        where = self.where(s)
        self.loops[where] = self.loops.get(where, 0) + 1
        r = self.known(T.lt(lo, hi))
        if r is False:
            return
        kname = T.fresh_name("k")
        k = T.sym(kname, "I")
        H0 = self.heap
        outer_writes = self.writes
        mods = set()
        cache = None
        tag = T.fresh_name("h")
        for rnd in range(12):
            syms = {kname}
            lev = Level(syms)
            self.levels.append(lev)
            try:
                lev.assume(T.le(lo, k))
                lev.assume(T.lt(k, hi))
                if given:
                    lev.assume(given(k))
                nbase, throwing = len(lev.pc), []
                H = dict(H0)
                havocs = {}
                for addr, root in sorted(mods, key=str):
                    v = H0[addr]
                    for p in root:
                        v = self.getp(v, p)
                    hv = self.havoc(v, "%s_%s_%s" % (tag, addr if not isinstance(addr, tuple) else "_".join(map(str, addr)), ".".join(root)), (), syms)
                    havocs[(addr, root)] = hv
                    H[addr] = self.setp(H[addr], root, hv)
                self.heap = H
                # array lengths are non-negative at every iteration
                self.writes = set()
                state = {"exit": False}

                def thunk():
                    self._dead = False
                    before, self.writes = self.writes, set()
                    try:
                        thunk2()
                    finally:
                        self.writes |= before

                def thunk2():
                    setk(k)
                    try:
                        self.exec(body)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        raise Unsupported("break out of a symbolic loop at " + where)
                    except ReturnEx:
                        raise Unsupported("return out of a symbolic loop at " + where)
                    except Infeasible:
                        self._dead = True
                    except ThrowEx as e:
                        if self.expect_throw:
                            throwing.append(T.and_(*lev.pc[nbase:]))
                            self._dead = True
                            return
                        self.add_obl("no exception is thrown (%s)" % e.where, T.FALSE, e.where)
                        self._dead = False
                paths = self.explore(lev, thunk)
                w = {(a, r) for a, r in self.writes if a in H0}
                if loc is not None:
                    w = {(a, r) for a, r in w if a != loc.addr}
                # keep only outermost roots
                new = set()
                for a, r in w | mods:
                    if not any(a == b and len(q) < len(r) and r[:len(q)] == q for b, q in w | mods):
                        new.add((a, r))
                if new <= mods:
                    break
                mods = new
            finally:
                self.heap = H0
                self.writes = outer_writes
                self.levels.pop()
        else:
            raise Unsupported("loop frame does not stabilise")
        # join the local paths
        finals = {}
        for key in mods:
            v = None
            for pc, H, _ in reversed(paths):
                x = H[key[0]]
                for p in key[1]:
                    x = self.getp(x, p)
                v = x if v is None else self.join(T.and_(*pc), x, v, lev)
            finals[key] = v
        summary = LoopSummary(self, lo, hi, kname, lev.syms, havocs, finals, H0, lev)
        results = summary.solve()
        for (addr, root), v in results.items():
            if self.writes is not None:
                self.writes.add((addr, root))
            self.heap[addr] = self.setp(self.heap[addr], root, v)
        # obligations of the body hold for every iteration
        for pc, H, obl in paths:
            for o in obl:
                base = [T.le(lo, k), T.lt(k, hi)] + pc
                g = summary.at_iteration(o.goal)
                pp = [summary.at_iteration(c) for c in base]
                extra = [summary.at_iteration(c) for c in o.pc]
                self.path_obl.append(Obligation(o.name, self.pc() + pp + extra, g, o.where))
        if throwing:
            t = summary.at_iteration(T.or_(*throwing))
            if not self.decide(T.eq0(T.sum_(lo, hi, kname, T.ite(t, T.ONE, T.ZERO)))):
                raise ThrowEx(where)

    def comprehension(self, kname, m, fn):
        """value of fn(k) for a generic 0 <= k < m, as a term in k"""
        k = T.sym(kname, "I")
        lev = Level({kname})
        self.levels.append(lev)
        vals = []
        H0 = self.heap
        saved_w = self.writes
        self.writes = None
        try:
            lev.assume(T.le(T.IZERO, k))
            lev.assume(T.lt(k, m))

            def thunk():
                self._dead = False
                try:
                    vals.append(self.val(self.call_closure(fn, [k])))
                except Infeasible:
                    self._dead = True
            paths = self.explore(lev, thunk)
            v = None
            for (pc, H, obl), x in reversed(list(zip(paths, vals))):
                v = x if v is None else merge(T.and_(*pc), x, v)
                for o in obl:
                    self.path_obl.append(Obligation(
                        o.name, [c for l in self.levels for c in l.pc] + pc + o.pc, o.goal, o.where))
        finally:
            self.levels.pop()
            self.heap = H0
            self.writes = saved_w
        if v is None:
            raise Infeasible()
        return v

    def join(self, c, a, b, lev):
        self.levels.append(lev)
        try:
            return merge(c, a, b)
        finally:
            self.levels.pop()

    def generic_loop(self, c, body, inc, s, do=False):
        """loops without a recognised counter: first try to run concretely,
        then havoc everything the body modifies"""
        where = self.where(s)
        self.loops[where] = self.loops.get(where, 0) + 1
        hook = self.opts.get("loop_hook")
        # concrete attempt
        n = 0
        first = True
        while n < self.LIMIT:
            if not (do and first):
                if c is None:
                    r = True
                else:
                    save = (dict(self.heap), self.next_addr)
                    v = self.boolean(self.rv(c))
                    r = self.syntactic(v) if n else self.known(v)
                    if r is None:
                        self.heap = save[0]
                        break
                if not r:
                    return
            first = False
            if do and n == 0 and not self.opts.get("unroll_do"):
                break
            try:
                self.exec(body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc is not None:
                self.ev(inc)
            n += 1
        if n >= self.LIMIT:
            raise Unsupported("unrolling limit")
        self.havoc_loop(c, body, inc, s, do)

    def havoc_loop(self, c, body, inc, s, do):
        where = self.where(s)
        d = self.frame.setdefault("loops", 0)
        inv = self.invariants.get((self.plain_name(self.frame["fun"]["name"]), d), [])
        for name, fn in inv:
            self.add_obl(name + " (initially)", self.invariant(fn), where)
        self.frame["loops"] = d + 1
        try:
            self.havoc_loop_(c, body, inc, s, do, where, inv)
        finally:
            self.frame["loops"] = d

    def invariant(self, fn):
        saved, self.loop_frame = self.loop_frame, self.frame
        try:
            return self.merged(lambda: self.boolean(self.rv_of(self.call_closure(fn, []))))
        finally:
            self.loop_frame = saved

    def assume_invariants(self, inv):
        for name, fn in inv:
            c = self.invariant(fn)
            if self.known(c) is False:
                raise Infeasible()
            self.assume(c)

    def rv_of(self, v):
        return self.val(v)

    def explore_loop(self, c, body, inc, s, do, where, inv):
        H0 = self.heap
        outer_writes = self.writes
        mods = set()
        if self.precise:
            # what it modified on another path is a good guess
            for addr, root in self.loop_mods.get(where, ()):
                if addr in H0:
                    try:
                        v = H0[addr]
                        for p in root:
                            v = self.getp(v, p)
                        mods.add((addr, root))
                    except Exception:
                        pass
        tag = T.fresh_name("w")
        for rnd in range(12):
            syms = set()
            lev = Level(syms)
            self.levels.append(lev)
            try:
                H = dict(H0)
                for addr, root in sorted(mods, key=str):
                    v = H0[addr]
                    for p in root:
                        v = self.getp(v, p)
                    self.heap = H
                    hv = self.havoc(v, "%s_%s_%s" % (tag, addr, ".".join(root)), (), syms)
                    if self.precise and addr in self.unsigned and isinstance(hv, T.Term):
                        lev.assume(T.le0(T.neg(hv)))
                    H[addr] = self.setp(H[addr], root, hv)
                self.heap = H
                self.writes = set()
                exits = []

                def thunk():
                    self._dead = False
                    try:
                        self.assume_invariants(inv)
                        if c is not None and not do:
                            if not self.truth(c):
                                self._dead = True
                                return
                        try:
                            self.exec(body)
                        except ContinueEx:
                            pass
                        if inc is not None:
                            self.ev(inc)
                        if inv and (not do or self.truth(c)):
                            for name, fn in inv:
                                self.add_obl(name + " (after an iteration)", self.invariant(fn), where)
                    except BreakEx:
                        exits.append(list(lev.pc))
                    except ReturnEx:
                        if not self.precise:
                            raise Unsupported("return out of a loop at " + where)
                    except Infeasible:
                        self._dead = True
                    except ThrowEx as e:
                        if self.expect_throw:
                            self._dead = True
                            return
                        self.add_obl("no exception is thrown (%s)" % e.where, T.FALSE, e.where)
                self.loop_depth += 1
                try:
                    dead = [] if self.precise else None
                    paths = self.explore(lev, thunk, dead)
                finally:
                    self.loop_depth -= 1
                w = {(a, r) for a, r in self.writes if a in H0}
                new = set()
                for a, r in w | mods:
                    if not any(a == b and len(q) < len(r) and r[:len(q)] == q for b, q in w | mods):
                        new.add((a, r))
                if new <= mods:
                    break
                mods = new
            finally:
                self.heap = H0
                self.writes = outer_writes
                self.levels.pop()
        else:
            raise Unsupported("loop frame does not stabilise")
        if self.opts.get("debug"):
            print("loop", where, T._fresh[0], self.next_addr, [(l.pos, [int(x) for x in l.trail]) for l in self.levels], "rounds", rnd + 1, "paths", len(paths), "dead", len(dead or []), "mods", len(mods))
        if self.precise:
            self.loop_mods[where] = mods
        for pc, Hh, obl in paths + (dead or []):
            for o in obl:
                self.path_obl.append(Obligation(o.name, self.pc() + pc + o.pc, o.goal, o.where))
        return mods, exits

    def havoc_loop_(self, c, body, inc, s, do, where, inv):
        # the paths of a function are explored by replaying it; what a replay
        # has in common with an earlier path is not explored again
        key = (where, T._fresh[0], self.next_addr, tuple(id(l) for l in self.levels), tuple(l.pos for l in self.levels))
        hit = None
        for ends, rest in self.explored.get(key, ()) if self.precise else ():
            if all(l.trail[:len(t)] == t for l, (t, _, _) in zip(self.levels, ends)):
                hit = ends, rest
                break
        if hit:
            ends, (fresh, addr, mods, exits, obl) = hit
            for l, (t, pc, pcset) in zip(self.levels, ends):
                l.pos, l.pc, l.pcset = len(t), list(pc), dict(pcset)
            T._fresh[0], self.next_addr = fresh, addr
            self.path_obl.extend(obl)
        else:
            n = len(self.path_obl)
            mods, exits = self.explore_loop(c, body, inc, s, do, where, inv)
            if self.precise:
                ends = [(l.trail[:l.pos], list(l.pc), dict(l.pcset)) for l in self.levels]
                # keeps the levels alive, whose identities are in the key
                self.explored.setdefault(key, []).append((ends, (T._fresh[0], self.next_addr, mods, exits,
                                                                 self.path_obl[n:])))
                self.alive.append(list(self.levels))
        if self.precise:
            return self.last_of(c, body, inc, do, mods, where, inv)
        # state after an arbitrary number of iterations
        if exits:
            syms2 = set()
            for addr, root in sorted(mods, key=str):
                v = self.heap[addr]
                for p in root:
                    v = self.getp(v, p)
                self.store(Loc(addr, root), self.havoc(v, T.fresh_name("x") + "_%s_%s" % (addr, ".".join(root)), (), syms2))
            if len(self.levels) > 1:
                self.levels[-1].syms |= syms2
            return
        if do:
            # last iteration: havoc the head state, run the body once more
            syms2 = set()
            for addr, root in sorted(mods, key=str):
                v = self.heap[addr]
                for p in root:
                    v = self.getp(v, p)
                self.store(Loc(addr, root), self.havoc(v, T.fresh_name("x") + "_%s_%s" % (addr, ".".join(root)), (), syms2))
            if len(self.levels) > 1:
                self.levels[-1].syms |= syms2
            saved = self.path_obl
            self.path_obl = []
            try:
                self.exec(body)
            except ContinueEx:
                pass
            self.path_obl = saved
            if self.truth(c):
                raise Infeasible()
            return
        syms2 = set()
        for addr, root in sorted(mods, key=str):
            v = self.heap[addr]
            for p in root:
                v = self.getp(v, p)
            self.store(Loc(addr, root), self.havoc(v, T.fresh_name("x") + "_%s_%s" % (addr, ".".join(root)), (), syms2))
        if len(self.levels) > 1:
            self.levels[-1].syms |= syms2
        if c is not None and self.truth(c):
            raise Infeasible()

    def last_of(self, c, body, inc, do, mods, where, inv=()):
        """the state after a loop that ended: it made fewer than k iterations,
        or its last k ones started in an arbitrary state"""
        k = self.last_iterations if self.loop_depth == 0 else 1
        self.loop_depth += 1
        saved = self.path_obl
        self.path_obl = []
        try:
            n = 0 if not do else 1
            while n < k:
                b = T.fresh("iterations_%d" % n, "B")
                if len(self.levels) > 1:
                    self.levels[-1].syms.update(b.fv)
                if self.decide(b):
                    return self.iterate(c, body, inc, do, n)
                n += 1
            if not do and not self.truth(c):
                raise Infeasible()          # counted above
            syms2 = set()
            for addr, root in sorted(mods, key=str):
                v = self.heap[addr]
                for p in root:
                    v = self.getp(v, p)
                hv = self.havoc(v, T.fresh_name("x") + "_%s_%s" % (addr, ".".join(root)), (), syms2)
                self.store(Loc(addr, root), hv)
                if addr in self.unsigned and isinstance(hv, T.Term):
                    if len(self.levels) > 1:
                        self.levels[-1].syms |= syms2
                    self.nonneg(hv)
            if len(self.levels) > 1:
                self.levels[-1].syms |= syms2
            self.assume_invariants(inv)
            self.iterate(c, body, inc, do, k)
        finally:
            self.path_obl = saved
            self.loop_depth -= 1

    def iterate(self, c, body, inc, do, n):
        """exactly n iterations"""
        for i in range(n):
            if not (do and i == 0):
                if c is not None and not self.truth(c):
                    raise Infeasible()
            try:
                self.exec(body)
            except ContinueEx:
                pass
            except BreakEx:
                if i < n - 1:
                    raise Infeasible()
                return
            except ReturnEx:
                if i < n - 1:
                    raise Infeasible()
                raise
            if inc is not None:
                self.ev(inc)
        if c is None or self.truth(c):
            raise Infeasible()

    def where(self, s):
        f = self.frame["fun"]
        return "%s:%s" % (f.get("file", "?").replace("/repo/", ""), s.get("l"))

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        return getattr(self, "e_" + e["k"])(e)

    def e_unsup(self, e):
        raise Unsupported("expression " + e.get("what", "?"))

    def e_opaque(self, e):
        return Opq(T.fresh("opq", "O"), "?")

    def e_lit(self, e):
        v = e["v"]
        if isinstance(v, bool):
            return T.boolc(v)
        if self.ty(e["t"])["k"] == "bool":
            return T.boolc(bool(v))
        return T.num(v, "I")

    def e_flit(self, e):
        txt = e.get("txt")
        from fractions import Fraction
        import math
        xv = float.fromhex(e["hex"])
        for q in (1, 2, 4):
            if xv == math.pi / q:
                return F(T.scale(Fraction(1, q), T.sym("pi")))
        if txt:
            s = txt.rstrip("fFlL").replace("'", "")
            try:
                return F(T.num(Fraction(s)))
            except ValueError:
                pass
        x = float.fromhex(e["hex"])
        import math
        if x != x:
            return F(T.ZERO, T.TRUE)
        if abs(x - math.pi) < 1e-15:
            return F(T.sym("pi"))
        if math.isinf(x):
            return F(T.fresh("inf"), T.FALSE, T.TRUE)
        from fractions import Fraction
        return F(T.num(Fraction(x)))

    def e_str(self, e):
        return Str(e["v"])

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zero_value(e["t"])

    def zero_value(self, tid):
        t = self.ty(tid)
        k = t["k"]
        if k == "float":
            return FZERO
        if k in ("int", "enum"):
            return T.IZERO
        if k == "bool":
            return T.FALSE
        if k == "ptr":
            return NULL
        if k == "array":
            z = self.zero_value(t["to"])
            return Arr(T.num(t["n"], "I"), lambda i: z)
        if k == "rec":
            m = self.models.default_value(self, self.p.recs[t["rec"]], tid)
            if m is not None:
                return m
            if self.p.recs[t["rec"]]["mine"]:
                return Struct(t["rec"], {f["n"]: self.zero_value(f["t"]) for f in self.p.recs[t["rec"]]["fields"]})
        raise Unsupported("zero value of " + t["s"])

    def e_this(self, e):
        if self.frame["this"] is None:
            raise Unsupported("this")
        return Ptr(self.frame["this"])

    def e_var(self, e):
        l = self.frame["vars"].get(e["id"])
        if l is not None:
            return l
        if e.get("g"):
            return self.models.global_var(self, e)
        raise Unsupported("unbound variable " + e["n"])

    def e_bind(self, e):
        return self.ev(e["e"])

    def e_fn(self, e):
        return FnRef(e["f"])

    def e_mfn(self, e):
        return FnRef(e["f"])

    def e_mem(self, e):
        b = self.ev(e["b"])
        if e.get("arrow"):
            p = self.val(b)
            if not isinstance(p, Ptr):
                raise Unsupported("-> on " + type(p).__name__)
            if p.loc is None:
                raise Unsupported("null pointer dereference")
            b = p.loc
        if isinstance(b, Loc):
            l = b.at(e["n"])
            o = self.load(b)
            if isinstance(o, (Struct, Opq)) and e["n"] in o.f:
                x = o.f[e["n"]]
                if isinstance(x, Loc):       # reference member
                    return x
            elif isinstance(o, Pair):
                return b.at(("pair", {"first": 0, "second": 1}[e["n"]]))
            elif isinstance(o, Opq):
                return self.models.opq_field(self, b, o, e)
            return l
        if isinstance(b, Pair):
            return b.v[{"first": 0, "second": 1}[e["n"]]]
        x = self.getp(b, e["n"])
        return x

    def e_temp(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Loc):
            return v
        return self.alloc(v)

    def e_cast(self, e):
        ck = e["ck"]
        v = self.ev(e["e"])
        if ck == "LValueToRValue":
            return self.val(v)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return v
        if ck == "ArrayToPointerDecay":
            if isinstance(v, Str):
                return v
            if isinstance(v, Loc):
                if isinstance(self.load(v), Str):
                    return self.load(v)
                return Ptr(v.at(T.IZERO))
            return v
        if ck in ("IntegralToFloating",):
            v = self.val(v)
            return F(T.i2r(v))
        if ck in ("FloatingCast",):
            return self.val(v)
        if ck == "IntegralCast":
            v = self.val(v)
            if isinstance(v, T.Term) and v.sort == "B":
                return T.ite(v, T.IONE, T.IZERO)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.boolean(self.val(v))
        if ck == "FloatingToIntegral":
            v = self.val(v)
            return self.models.trunc(self, v)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            return v
        if ck == "BooleanToSignedIntegral":
            v = self.val(v)
            return T.ite(v, T.IONE, T.IZERO)
        if ck in ("UserDefinedConversion", "ConstructorConversion"):
            return v
        raise Unsupported("cast " + ck)

    def e_bin(self, e):
        op = e["op"]
        if op == "=":
            b = self.rv(e["b"])
            a = self.lv(e["a"])
            self.store(a, self.convert(b, e["a"]["t"]))
            return a
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op in ("&&", "||"):
            a = self.boolean(self.rv(e["a"]))
            k = self.syntactic(a)
            if op == "&&":
                if k is False:
                    return T.FALSE
                if k is True:
                    return self.boolean(self.rv(e["b"]))
                if self.pure(e["b"]):
                    return T.and_(a, self.boolean(self.rv(e["b"])))
                if not self.decide(a):
                    return T.FALSE
                return self.boolean(self.rv(e["b"]))
            if k is True:
                return T.TRUE
            if k is False:
                return self.boolean(self.rv(e["b"]))
            if self.pure(e["b"]):
                return T.or_(a, self.boolean(self.rv(e["b"])))
            if self.decide(a):
                return T.TRUE
            return self.boolean(self.rv(e["b"]))
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.arith(op, a, b, e["t"])

    def pure(self, n):
        """no call and no division: safe to evaluate unconditionally"""
        if n["k"] in ("call", "mcall", "icall", "ctor", "cassign", "new", "throw", "lambda", "cond"):
            return False
        if n["k"] == "bin" and n["op"] in ("/", "%", "="):
            return False
        if n["k"] == "un" and n["op"] in ("++", "--", "*"):
            return False
        for x in ("a", "b", "e", "i"):
            c = n.get(x)
            if isinstance(c, dict) and not self.pure(c):
                return False
        return True

    def arith(self, op, a, b, tid):
        if isinstance(a, F) or isinstance(b, F):
            if isinstance(a, T.Term):
                a = F(T.i2r(a))
            if isinstance(b, T.Term):
                b = F(T.i2r(b))
            if op == "+":
                return fadd(a, b)
            if op == "-":
                return fsub(a, b)
            if op == "*":
                return fmul(a, b)
            if op == "/":
                return self.fdiv(a, b)
            return self.fcmp(op, a, b)
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            if a.sort == "B" and b.sort == "B":
                if op == "==":
                    return T.eq(a, b)
                if op == "!=":
                    return T.not_(T.eq(a, b))
                if op == "&":
                    return T.and_(a, b)
                if op == "|":
                    return T.or_(a, b)
            a, b = self.as_int(a), self.as_int(b)
            if op == "+":
                return T.add(a, b)
            if op == "-":
                return T.sub(a, b)
            if op == "*":
                return T.mul(a, b)
            if op == "<":
                return T.lt(a, b)
            if op == "<=":
                return T.le(a, b)
            if op == ">":
                return T.lt(b, a)
            if op == ">=":
                return T.le(b, a)
            if op == "==":
                return T.eq(a, b)
            if op == "!=":
                return T.not_(T.eq(a, b))
            if op in ("/", "%"):
                if a.op == "num" and b.op == "num" and b.val != 0:
                    q = int(a.val) // int(b.val) if (a.val >= 0) == (b.val > 0) else -(abs(int(a.val)) // abs(int(b.val)))
                    return T.num(q if op == "/" else int(a.val) - q * int(b.val), "I")
                return T.app("idiv" if op == "/" else "imod", a, b, sort="I")
            if op in ("&", "|", "^", "<<", ">>"):
                if a.op == "num" and b.op == "num":
                    x, y = int(a.val), int(b.val)
                    return T.num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op], "I")
                return T.app("bit" + op, a, b, sort="I")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
            s = same_loc(a.loc, b.loc)
            if not s and a.loc is not None and b.loc is not None and a.loc.addr == b.loc.addr:
                raise Unsupported("pointer comparison")
            return T.boolc(s if op == "==" else not s)
        raise Unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__))

    def as_int(self, v):
        if v.sort == "B":
            return T.ite(v, T.IONE, T.IZERO)
        return v

    def e_cassign(self, e):
        b = self.rv(e["b"])
        a = self.lv(e["a"])
        v = self.load(a)
        r = self.arith(e["op"], v, b, e["t"])
        if isinstance(v, T.Term) and v.sort == "B" and isinstance(r, T.Term) and r.sort == "I":
            r = T.not_(T.eq0(r))
        self.store(a, r)
        return a

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            a = self.lv(e["a"])
            v = self.load(a)
            one = T.IONE if op == "++" else T.neg(T.IONE)
            if isinstance(v, F):
                n = fadd(v, F(T.i2r(one)))
            elif isinstance(v, Iter):
                n = Iter(v.loc, T.add(v.i, one))
            elif isinstance(v, T.Term):
                n = T.add(v, one)
            else:
                raise Unsupported("++ on " + type(v).__name__)
            self.store(a, n)
            return v if e.get("post") else a
        if op == "*":
            v = self.rv(e["a"])
            if isinstance(v, Ptr):
                if v.loc is None:
                    raise Unsupported("null dereference")
                return v.loc
            if isinstance(v, FnRef):
                return v
            raise Unsupported("* on " + type(v).__name__)
        if op == "&":
            v = self.ev(e["a"])
            if isinstance(v, FnRef):
                return v
            if isinstance(v, Loc):
                return Ptr(v)
            return Ptr(self.alloc(v))
        v = self.rv(e["a"])
        if op == "-":
            return fneg(v) if isinstance(v, F) else T.neg(self.as_int(v))
        if op == "+":
            return v
        if op == "!":
            return T.not_(self.boolean(v))
        raise Unsupported("unary " + op)

    def e_cond(self, e):
        c = self.boolean(self.rv(e["c"]))
        k = self.known(c)
        if k is None and (self.simple(e["a"]) and self.simple(e["b"]) or self.lax and self.harmless([e["a"], e["b"]]) and
                          self.ty(e["t"])["k"] == "float"):
            a, b = self.rv(e["a"]), self.rv(e["b"])
            try:
                return merge(c, a, b)
            except Unsupported:
                pass
        if k is None and self.lax and self.ty(e["t"])["k"] == "void":
            self.merged(lambda: self.ev(e["a"]) and None if self.decide(c) else self.ev(e["b"]) and None)
            return None
        if k is None:
            k = self.decide(c)
        return self.ev(e["a"]) if k else self.ev(e["b"])

    def simple(self, n):
        return self.pure(n) and self.ty(n["t"])["k"] in ("float", "int", "bool") and self.opts.get("merge_cond", True)

    def e_sub(self, e):
        a = self.ev(e["a"])
        i = self.rv(e["i"])
        if isinstance(a, Loc):
            v = self.load(a)
            if isinstance(v, Ptr):
                a = v
        if isinstance(a, Ptr):
            l = a.loc
            if l.path and isinstance(l.path[-1], T.Term):
                return Loc(l.addr, l.path[:-1] + (T.add(l.path[-1], i),))
            raise Unsupported("pointer indexing")
        if isinstance(a, Loc):
            return a.at(i)
        raise Unsupported("array subscript")

    def e_initlist(self, e):
        t = self.ty(e["t"])
        if t["k"] == "rec":
            r = self.p.recs[t["rec"]]
            m = self.models.from_list(self, r, e)
            if m is not None:
                return m
            f = {}
            for fl, a in zip(r["fields"], e["args"]):
                f[fl["n"]] = self.init_value(a, fl["t"])
            return Struct(t["rec"], f)
        if t["k"] == "array":
            vs = [self.rv(a) for a in e["args"]]
            a = Arr(T.num(t["n"], "I"), lambda i, t=t: self.zero_value(t["to"]))
            for i, v in enumerate(vs):
                a = arr_set(a, T.num(i, "I"), v)
            return a
        if len(e["args"]) == 1:
            return self.init_value(e["args"][0], e["t"])
        if not e["args"]:
            return self.zero_value(e["t"])
        raise Unsupported("initialiser list")

    def e_stdinit(self, e):
        return self.val(self.ev(e["e"]))

    def e_throw(self, e):
        raise ThrowEx(self.where(e))

    def e_new(self, e):
        init = e.get("init")
        v = self.rv(init) if init else self.uninit(e["at"], "new")
        return Ptr(self.alloc(v))

    def e_delete(self, e):
        self.ev(e["e"])
        return None

    def e_stmtexpr(self, e):
        raise Unsupported("statement expression")

    def e_lambda(self, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.frame["this"]
                continue
            src = self.ev(c["e"]) if c.get("e") else self.frame["vars"][c["id"]]
            if c["ref"]:
                caps[c["id"]] = self.frame["vars"].get(c["id"]) or src
            else:
                caps[c["id"]] = self.alloc(self.val(src))
        return Closure(e["f"], caps, this)

    def call_closure(self, c, args):
        if isinstance(c, Closure):
            return self.call_fun(c.f, args, None, c)
        if isinstance(c, FnRef):
            f = self.p.funs[c.f]
            if "body" in f:
                return self.call_fun(c.f, args, None, None)
        raise Unsupported("call of " + type(c).__name__)

    def e_icall(self, e):
        fn = self.rv(e["fn"])
        return self.call_closure(fn, [self.ev(a) for a in e["args"]])

    def e_ctor(self, e):
        f = self.p.funs[e["f"]]
        rid = f["rec"]
        rec = self.p.recs[rid]
        m = self.models.construct(self, e, f, rec)
        if m is not None:
            return m
        if f.get("copy") or f.get("move"):
            if f.get("defaulted") or f.get("implicit") or not rec["mine"]:
                return self.rv(e["args"][0])
        if rec["mine"]:
            if self.p.is_opaque_rec(rid):
                return Opq(T.fresh("obj", "O"), rec["name"])
            if "body" in f:
                obj = self.alloc(self.blank(rid))
                self.call_fun(e["f"], self.args(f, e["args"]), obj, None)
                return self.load(obj)
            if f.get("defaulted") or not f["params"]:
                # constructor defined in a translation unit that is not part
                # of this contract: every field is arbitrary
                for a in e["args"]:
                    self.ev(a)
                return self.mkval(self.rec_type(rid), T.fresh_name("arb_" + rec["name"].split("::")[-1]))
        raise Unsupported("constructor " + f["full"])

    def rec_type(self, rid):
        for i, t in enumerate(self.p.types):
            if t and t["k"] == "rec" and t["rec"] == rid and not t.get("const"):
                return i
        for i, t in enumerate(self.p.types):
            if t and t["k"] == "rec" and t["rec"] == rid:
                return i
        raise Unsupported("no type for record")

    def blank(self, rid):
        f = {}
        self.collect_blank(rid, f)
        return Struct(rid, f)

    def collect_blank(self, rid, f):
        r = self.p.recs[rid]
        for b in r.get("bases", []):
            br = self.p.types[b]["rec"]
            if self.p.recs[br]["mine"]:
                self.collect_blank(br, f)
        for fl in r["fields"]:
            t = self.ty(fl["t"])
            if t["k"] == "ref":
                f[fl["n"]] = None
                continue
            if fl.get("init"):
                f[fl["n"]] = self.init_value(fl["init"], fl["t"])
                continue
            try:
                f[fl["n"]] = self.uninit(fl["t"], fl["n"]) if t["k"] != "rec" else \
                    self.models.blank(self, self.p.recs[t["rec"]], fl["t"], fl["n"])
            except Unsupported:
                f[fl["n"]] = Opq(T.fresh("blank_" + fl["n"], "O"), "?")

    def e_call(self, e):
        f = self.p.funs[e["f"]]
        name = f["name"]
        m = self.models.call(self, e, f, name)
        if m is not self.models.NO:
            return m
        if "body" in f:
            return self.call_fun(e["f"], self.args(f, e["args"]), None, None)
        raise Unsupported("call of " + f["full"])

    @staticmethod
    def plain_name(n):
        """without template arguments"""
        while True:
            m = re.sub(r"<[^<>]*>", "", n)
            if m == n:
                return n
            n = m

    def e_mcall(self, e):
        f = self.p.funs[e["f"]]
        rec = self.p.recs[f["rec"]]
        o = self.ev(e["obj"])
        if e.get("arrow"):
            p = self.val(o)
            if isinstance(p, Ptr):
                if p.loc is None:
                    raise Unsupported("null pointer call")
                o = p.loc
            elif isinstance(p, Iter):
                o = self.models.iter_deref(self, p)
            elif isinstance(p, Opq):
                o = p
            else:
                raise Unsupported("-> on " + type(p).__name__)
        if rec["lambda"] or (rec["name"] == "std::function" and f["name"].endswith("operator()")):
            return self.call_closure(self.val(o), [self.ev(a) for a in e["args"]])
        key = (self.plain_name(f["name"]), len(e["args"]))
        if key in self.abstracts:
            fn = self.abstracts[key]
            return self.call_closure(fn, [o if isinstance(o, Loc) else self.alloc(o)] + self.args(f, e["args"]))
        m = self.models.mcall(self, e, f, rec, o)
        if m is not self.models.NO:
            return m
        if "body" in f and not self.p.is_opaque_rec(f["rec"]):
            if not isinstance(o, Loc):
                o = self.alloc(o)
            return self.call_fun(e["f"], self.args(f, e["args"]), o, None)
        if f.get("assign") and (f.get("defaulted") or f.get("implicit")):
            v = self.rv(e["args"][0])
            self.store(o, v)
            return o
        if f.get("dtor"):
            return None
        raise Unsupported("method " + f["full"])

    # -------------------------------------------------------- obligations
    def spec_line(self, where):
        fr = self.frame
        while fr is not None:
            f = fr["fun"].get("file", "")
            if "/contracts/" in f and not f.endswith("verify.h") and fr.get("line"):
                return "%s:%s" % (f.split("/")[-1], fr["line"])
            fr = fr["up"]
        return where

    def add_obl(self, name, goal, where):
        where = self.spec_line(where)
        self.path_obl.append(Obligation(name, self.pc() if len(self.levels) == 1 else self.local_pc(), goal, where))

    def local_pc(self):
        return list(self.levels[-1].pc)


class LoopSummary:
    """closed form of the effect of `for k in [lo,hi)` on each modified root"""

    def __init__(self, it, lo, hi, kname, syms, havocs, finals, H0, lev):
        self.it, self.lo, self.hi, self.kname = it, lo, hi, kname
        self.k = T.sym(kname, "I")
        self.syms = syms - {kname}
        self.havocs, self.finals, self.H0 = havocs, finals, H0
        self.lev = lev
        # closed: havoc symbol name -> function(k term, args) -> value at
        # the start of iteration k
        self.closed = {}

    def init_of(self, key):
        v = self.H0[key[0]]
        for p in key[1]:
            v = self.it.getp(v, p)
        return v

    def free(self, t):
        """havoc symbols of this loop in t not yet in closed form"""
        return t.fv & self.syms - set(self.closed)

    def at_iteration(self, t):
        """rewrite resolved havoc symbols by their closed form at k"""
        for _ in range(6):
            s = t.fv & set(self.closed)
            if not s:
                return t
            m = {}
            for n in s:
                c = self.closed[n]
                m[n] = c
            t = subst_fn(t, m, self.k)
        return t

    def nonempty(self):
        return T.lt(self.lo, self.hi)

    def leaves(self, hv, fv, iv, idx, out):
        """aligned scalar leaves (havoc, final, init) with generic indices"""
        if isinstance(hv, F):
            out.append(("F", hv, fv, iv, idx))
        elif isinstance(hv, T.Term):
            out.append(("T", hv, fv, iv, idx))
        elif isinstance(hv, Tens):
            for i in range(len(hv.c)):
                self.leaves(hv.c[i], fv.c[i], iv.c[i], idx, out)
        elif isinstance(hv, Struct):
            for k in hv.f:
                self.leaves(hv.f[k], fv.f[k], iv.f[k], idx, out)
        elif isinstance(hv, Pair):
            for a, b, c in zip(hv.v, fv.v, iv.v):
                self.leaves(a, b, c, idx, out)
        elif isinstance(hv, Arr):
            self.leaves(hv.n, fv.n, iv.n, idx, out)
            if hv.cols is not None:
                self.leaves(hv.cols, fv.cols, iv.cols, idx, out)
            j = T.sym("$j%d" % len(idx), "I")
            # with the length in closed form elements beyond it do not matter
            self.leaves(arr_get(hv, j), arr_get(fv, j), arr_get(iv, j) if isinstance(iv, Arr) else iv, idx + (j,), out)
        elif isinstance(hv, Opq):
            out.append(("T", hv.key, fv.key, iv.key, idx))

    def solve(self):
        it = self.it
        it.levels.append(self.lev)
        try:
            todo = []
            for key, hv in self.havocs.items():
                self.leaves(hv, self.finals[key], self.init_of(key), (), todo)
        finally:
            it.levels.pop()
        self.result = {}      # havoc sym name -> function(args) -> final term
        pending = []
        for kind, hv, fv, iv, idx in todo:
            if kind == "F":
                pending.append((hv.t, fv.t, iv.t, idx))
                if hv.d is not None or fv.d is not None:
                    pending.append((hv.d if hv.d is not None else T.ZERO, fv.d or T.ZERO, iv.d or T.ZERO, idx))
                for a, b in ((fv.nan, iv.nan), (fv.und, iv.und)):
                    if a is not T.FALSE or b is not T.FALSE:
                        raise Unsupported("loop over possibly undefined values")
            else:
                pending.append((hv, fv, iv, idx))
        self.hit_once(pending)
        progress = True
        while pending and progress:
            progress = False
            rest = []
            for leaf in pending:
                if self.resolve(leaf):
                    progress = True
                else:
                    rest.append(leaf)
            pending = rest
        for hv, fv, iv, idx in pending:
            self.unresolved(hv, fv, iv, idx)
        # build results
        out = {}
        for key, hv in self.havocs.items():
            out[key] = self.rebuild(hv, self.finals[key])
        return out

    def kept(self, s, hv):
        """s is hv under conditions that do not change, else does not depend on it"""
        if s is hv or hv.val not in s.fv:
            return True
        return s.op == "ite" and self.kname not in s.args[0].fv and hv.val not in s.args[0].fv and \
            self.kept(s.args[1], hv) and self.kept(s.args[2], hv)

    def resolve(self, leaf):
        hv, fv, iv, idx = leaf
        if hv.op != "sym":
            return True
        name = hv.val
        if name in self.result:
            return True
        k, lo, hi = self.k, self.lo, self.hi
        s = self.at_iteration(fv)
        if idx and hv.fv & s.fv:
            s = self.own(s, hv, {})
        jn = tuple(j.val for j in idx)

        def mk(t):
            """function of (iteration bound b, index args)"""
            return t
        # unchanged
        if s is hv:
            self.set(name, jn, lambda b: iv)
            return True
        fr = self.free(s)
        if self.it.universal and fr - {name}:
            s = prover.Refine().term(s)
            fr = self.free(s)
        if not fr:
            # overwritten with a value that does not depend on the past
            last = lambda b: T.ite(T.lt(lo, b), T.subst(s, {self.kname: T.sub(b, T.IONE)}), iv)
            self.set(name, jn, last)
            return True
        if fr == {name} and self.kept(s, hv):
            # overwritten wherever a condition holds that is the same in every iteration
            def over(b):
                return T.ite(T.lt(lo, b), T.subst(T.replace(s, {hv.id: iv}), {self.kname: T.sub(b, T.IONE)}), iv)
            if not self.free(T.replace(s, {hv.id: iv})):
                self.set(name, jn, over)
                return True
        if hv.sort in ("R", "I") and fr == {name}:
            g = T.sub(s, hv)
            g = self.push_ite(g, hv)
            if not self.free(g):
                kb = T.fresh_name("s")

                def additive(b, g=g):
                    gg = T.subst(g, {self.kname: T.sym(kb, "I")})
                    if hv.sort == "I":
                        if kb in gg.fv:
                            raise Unsupported("integer sum")
                        if b is self.k or self.it.known(T.le(lo, b)) is True:
                            return T.add(iv, T.mul(gg, T.sub(b, lo)))
                        return T.add(iv, T.mul(gg, T.ite(T.le(lo, b), T.sub(b, lo), T.IZERO)))
                    return T.add(iv, sum_delta(lo, b, kb, gg))
                if hv.sort == "I" and self.kname in g.fv:
                    return False
                self.set(name, jn, additive)
                return True
        if hv.sort == "B" and fr == {name}:
            # conjunction / disjunction
            s1 = T.replace(s, {hv.id: T.TRUE})
            s0 = T.replace(s, {hv.id: T.FALSE})
            kb = T.fresh_name("s")
            if not self.free(s1) and not self.free(s0):
                if s0 is T.FALSE:
                    body = T.ite(T.subst(s1, {self.kname: T.sym(kb, "I")}), T.ZERO, T.ONE)
                    self.set(name, jn, lambda b: T.and_(iv, T.eq0(T.sum_(lo, b, kb, body))))
                    return True
                if s1 is T.TRUE:
                    body = T.ite(T.subst(s0, {self.kname: T.sym(kb, "I")}), T.ONE, T.ZERO)
                    self.set(name, jn, lambda b: T.or_(iv, T.not_(T.eq0(T.sum_(lo, b, kb, body)))))
                    return True
        # element hit in exactly one iteration
        if idx:
            for j in idx:
                hit = self.hit(s, j)
                if hit is None:
                    continue
                atom, c, st = hit      # atom: j == st k + c
                s1 = T.replace(s, {atom.id: T.TRUE})
                s0 = T.replace(s, {atom.id: T.FALSE})
                if s0 is not hv:
                    continue
                kk = T.sub(j, c)
                whole = T.TRUE
                if st != 1:
                    kk = T.app("floor", T.scale(Fraction(1, st), T.i2r(kk)), sort="I")
                    whole = T.eq(j, T.add(c, T.scale(st, kk)))
                s1 = T.subst(s1, {self.kname: kk})
                if self.kname in s1.fv:
                    continue
                # own element is still initial; other references must be resolved
                own = {hv.id: iv}
                s1 = self.initial(T.replace(s1, own), kk)
                if self.free(s1):
                    continue
                val = s1

                def once(b, val=val, kk=kk, whole=whole):
                    return T.ite(T.and_(whole, T.le(lo, kk), T.lt(kk, b)), val, iv)
                self.set(name, jn, once)
                return True
        return False

    def hit_once(self, leaves):
        """leaves of arrays of which iteration k writes the element k + c only"""
        self.once = {}
        for hv, fv, iv, idx in leaves:
            if hv.op != "sym" or not idx:
                continue
            s = self.own(fv, hv, {}) if hv.fv & fv.fv else fv
            for p, j in enumerate(idx):
                hit = self.hit(s, j)
                if hit and T.replace(s, {hit[0].id: T.FALSE}) is hv:
                    self.once[hv.val] = (p, hit[1], hit[2], iv, tuple(x.val for x in idx))
                    break

    def initial(self, t, k):
        """at iteration k their element k + c still has its initial value"""
        if t.fv.isdisjoint(self.once):
            return t
        sub = {}
        for x in T.subterms(t).values():
            if x.op == "sym" and x.val in self.once:
                p, c, st, iv, names = self.once[x.val]
                if T.sub(x.args[p], T.add(T.scale(st, k), c)) is T.IZERO:
                    sub[x.id] = T.subst(iv, dict(zip(names, x.args)))
        return T.replace(t, sub)

    def own(self, t, hv, eqs):
        """references to the element hv through indices that equal its own
        under the index equalities of the enclosing conditions"""
        if hv.val not in t.fv:
            return t
        if t.op == "sym" and t.val == hv.val:
            if t is hv:
                return t
            if eqs and T.subst(t, eqs) is T.subst(hv, eqs):
                return hv
            return t
        if t.op == "ite":
            c = t.args[0]
            e = dict(eqs)
            for a in (c.args if c.op == "and" else (c,)):
                if a.op == "eq0" and a.args[0].sort == "I":
                    d, k = T._linear(T.subst(a.args[0], e))
                    for j, q in d.items():
                        if j.op == "sym" and j.val.startswith("$j") and abs(q) == 1:
                            x = T._mk_linear({u: -w / q for u, w in d.items() if u is not j}, -k / q, "I")
                            e = {n: T.subst(y, {j.val: x}) for n, y in e.items()}
                            e[j.val] = x
                            break
            return T.ite(self.own(c, hv, eqs), self.own(t.args[1], hv, e), self.own(t.args[2], hv, eqs))
        return T.rebuild(t, [self.own(a, hv, eqs) for a in t.args])

    def push_ite(self, g, hv):
        """ite(c, a, b) - h  ->  ite(c, a-h, b-h) so that h cancels"""
        if not self.free(g):
            return g
        d, c = T._linear(g)
        for t, q in d.items():
            if t.op == "ite":
                rest = T.sub(g, T.scale(q, t))
                a = self.push_ite(self.under(t.args[0], T.add(rest, T.scale(q, t.args[1]))), hv)
                b = self.push_ite(T.add(rest, T.scale(q, t.args[2])), hv)
                return T.ite(t.args[0], a, b)
        return g

    def under(self, c, t):
        """t where the index equalities of c hold"""
        for a in (c.args if c.op == "and" else (c,)):
            if a.op == "eq0" and a.args[0].sort == "I":
                d, k = T._linear(a.args[0])
                for j, q in d.items():
                    if j.op == "sym" and j.val.startswith("$j") and abs(q) == 1:
                        e = T._mk_linear({u: -w / q for u, w in d.items() if u is not j}, -k / q, "I")
                        t = T.subst(t, {j.val: e})
                        break
        return t

    def hit(self, s, j):
        for t in T.subterms(s).values():
            if t.op == "eq0" and t.args[0].sort == "I":
                d, c = T._linear(t.args[0])
                if self.k in d and j in d and (-d[self.k] / d[j]).denominator == 1 and -d[self.k] / d[j] > 0:
                    rest = {x: q for x, q in d.items() if x is not self.k and x is not j}
                    if any(x.fv & self.syms for x in rest):
                        continue
                    # d[j]*j + d[k]*k + rest + c = 0 -> j = k - (rest + c)/d[j]
                    off = T.num(0, "I")
                    q = d[j]
                    if abs(q) != 1:
                        continue
                    off = T._mk_linear({x: -p / q for x, p in rest.items()}, -c / q, "I")
                    return t, off, int(-d[self.k] / d[j])
        return None

    def set(self, name, jn, fn):
        self.result[name] = (jn, fn)

        def at(k, args, fn=fn, jn=jn):
            t = fn(k)
            if jn:
                t = T.subst(t, dict(zip(jn, args)))
            return t
        self.closed[name] = at

    def unresolved(self, hv, fv, iv, idx):
        """no closed form: the final value is an uninterpreted function of the
        loop (same loop body, same start -> same value)"""
        name = hv.val
        if self.it.opts.get("debug"):
            print("unresolved", T.show(hv)[:100], "FINAL", T.show(self.at_iteration(fv))[:600])
        nn = T.fresh_name("loop")
        jn = tuple(j.val for j in idx)
        for l in self.it.levels[1:]:
            l.syms.add(nn) if l is self.it.levels[-1] else None
        self.it.assumed.add("loop state without closed form is arbitrary")
        jt = tuple(T.sym(x, "I") for x in jn)

        def fn(b):
            return T.sym(nn, hv.sort, (b,) + jt)
        self.set(name, jn, fn)

    def final(self, t):
        """final value of havoc symbol term t=sym(name,args)"""
        jn, fn = self.result[t.val]
        r = fn(self.hi)
        if jn:
            r = T.subst(r, dict(zip(jn, t.args)))
        return r

    def rebuild(self, hv, fv):
        if isinstance(hv, F):
            d = None
            if hv.d is not None or fv.d is not None:
                d = self.final(hv.d) if hv.d is not None else T.ZERO
            return F(self.final(hv.t), d=d)
        if isinstance(hv, T.Term):
            return self.final(hv)
        if isinstance(hv, Tens):
            return Tens(hv.rank, hv.dim, [self.rebuild(a, b) for a, b in zip(hv.c, fv.c)], hv.sym)
        if isinstance(hv, Struct):
            return Struct(hv.rec, {k: self.rebuild(hv.f[k], fv.f[k]) for k in hv.f})
        if isinstance(hv, Pair):
            return Pair([self.rebuild(a, b) for a, b in zip(hv.v, fv.v)])
        if isinstance(hv, Arr):
            return Arr(self.final(hv.n), lambda i: self.rebuild(hv.base(i), hv.base(i)), (),
                       None if hv.cols is None else self.final(hv.cols), hv.kind)
        if isinstance(hv, Opq):
            return Opq(self.final(hv.key), hv.cls, {k: x for k, x in hv.f.items() if k in ("base", "n") and isinstance(x, T.Term)})
        if isinstance(hv, Str):
            return Str(None)
        return fv


def subst_fn(t, m, k):
    """replace sym(name,args) by m[name](k,args)"""
    memo = {}
    keys = set(m)

    def go(t):
        if not t.fv or t.fv.isdisjoint(keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        args = [go(a) for a in t.args]
        if t.op == "sym" and t.val in m:
            r = m[t.val](k, args)
        else:
            r = T.rebuild(t, args)
        memo[t.id] = r
        return r
    return go(t)


def sum_delta(lo, hi, kname, body):
    """sum with Kronecker deltas eliminated: terms ite(k==e, v, 0)"""
    k = T.sym(kname, "I")
    d, c = T._linear(body)
    tot = T.ZERO
    rest = T.num(c)
    for t, q in d.items():
        r = _delta(lo, hi, kname, k, t)
        if r is None:
            rest = T.add(rest, T.scale(q, t))
        else:
            tot = T.add(tot, T.scale(q, r))
    return T.add(tot, T.sum_(lo, hi, kname, rest))


def guarded(cs, t):
    """t where all of cs hold, else zero"""
    return T.ite(T.and_(*cs), T.replace(t, {c.id: T.TRUE for c in cs if c is not T.TRUE and c is not T.FALSE}), T.ZERO)


def _delta(lo, hi, kname, k, t):
    co, f = T._factors(t)
    for b, e in f.items():
        if b.op == "ite" and e == 1:
            c, x, y = b.args
            if y is T.ZERO or x is T.ZERO:
                z = x if y is T.ZERO else None
                if z is None:
                    c = T.not_(c)
                    z = y
                for a in (c.args if c.op == "and" else (c,)):
                    if a.op == "eq0" and a.args[0].sort == "I":
                        dd, cc = T._linear(a.args[0])
                        if k in dd and abs(dd[k]) == 1:
                            q = dd[k]
                            e0 = T._mk_linear({u: -w / q for u, w in dd.items() if u is not k}, -cc / q, "I")
                            full = T.mul(T.num(co), z, *[T.ipow(bb, ee) for bb, ee in f.items() if bb is not b])
                            g = T.and_(*[u for u in (c.args if c.op == "and" else (c,)) if u is not a])
                            full = T.subst(full, {kname: e0})
                            g = T.subst(g, {kname: e0})
                            return guarded((T.le(lo, e0), T.lt(e0, hi), g), full)
    # nested conditions: the term vanishes unless k == e
    for a in T.subterms(t).values():
        if a.op == "eq0" and a.args[0].sort == "I" and k.val in a.fv:
            dd, cc = T._linear(a.args[0])
            if k in dd and abs(dd[k]) == 1 and T.replace(t, {a.id: T.FALSE}) is T.ZERO:
                q = dd[k]
                e0 = T._mk_linear({u: -w / q for u, w in dd.items() if u is not k}, -cc / q, "I")
                if k.val in e0.fv:
                    continue
                full = T.subst(T.replace(t, {a.id: T.TRUE}), {kname: e0})
                return guarded((T.le(lo, e0), T.lt(e0, hi)), full)
    return None
