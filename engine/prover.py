"""Discharges proof obligations: ring normalisation with the equalities of
the path condition, case splits, summation lemmas, and the SMT solvers z3
and cvc5 with ground instances of the axioms of the elementary functions."""
import time
import z3
from fractions import Fraction
import terms as T

stats = {"ring": 0, "z3": 0, "cvc5": 0, "trivial": 0, "sum": 0, "time": 0.0, "quick": 0}
z3.set_param("smt.random_seed", 7)


# ------------------------------------------------------------- translation
class Enc:
    def __init__(self, linear=False):
        self.memo = {}
        self.facts = []
        self.byname = {}
        self.apps = {}
        self.linear = linear
        self.vars = {}

    def var(self, t):
        n = "v%d" % t.id
        if t.sort == "R":
            v = z3.Real(n)
            if t.op == "sym" and t.val == "pi":
                self.facts += [v > z3.RealVal("3.14159265"), v < z3.RealVal("3.14159266")]
        elif t.sort == "I":
            v = z3.Int(n)
        elif t.sort == "O":
            v = z3.Int(n)
        else:
            v = z3.Bool(n)
        self.vars[t.id] = (t, v)
        return v

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.go(t)
            self.memo[t.id] = r
        return r

    def go(self, t):
        op = t.op
        if op == "num":
            if t.sort == "I":
                return z3.IntVal(int(t.val)) if t.val.denominator == 1 else z3.RealVal(str(t.val))
            return z3.RealVal("%d/%d" % (t.val.numerator, t.val.denominator))
        if op == "bool":
            return z3.BoolVal(t.val)
        if op == "add":
            c = t.val[1]
            xs = []
            for a, q in zip(t.args, t.val[0]):
                if t.sort == "I":
                    xs.append(int(q) * self(a) if q != 1 else self(a))
                else:
                    xs.append(z3.RealVal("%d/%d" % (q.numerator, q.denominator)) * self(a) if q != 1 else self(a))
            if c != 0:
                xs.append(z3.IntVal(int(c)) if t.sort == "I" else z3.RealVal("%d/%d" % (c.numerator, c.denominator)))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == "mul":
            if self.linear:
                return self.opaque_mul(t)
            r = None
            for a, e in zip(t.args, t.val):
                if e < 0:
                    x = self.inverse(a)
                    e = -e
                else:
                    x = self(a)
                for _ in range(e):
                    r = x if r is None else r * x
            return r
        if op == "sym":
            v = self.var(t)
            if t.args:
                for o in self.byname.get((t.val, len(t.args)), []):
                    self.congruence(o, t)
                self.byname.setdefault((t.val, len(t.args)), []).append(t)
            return v
        if op == "app":
            return self.application(t)
        if op == "ite":
            if t.sort == "B":
                return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
            return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "and":
            return z3.And([self(a) for a in t.args])
        if op == "or":
            return z3.Or([self(a) for a in t.args])
        if op == "le0":
            return self(t.args[0]) <= 0
        if op == "lt0":
            return self(t.args[0]) < 0
        if op == "eq0":
            return self(t.args[0]) == 0
        if op == "eqo":
            return self(t.args[0]) == self(t.args[1])
        if op in ("sum", "fold", "lam"):
            v = self.var(t)
            if op == "sum":
                sg = body_sign(t)
                if sg == "+":
                    self.facts.append(v >= 0)
                elif sg == "-":
                    self.facts.append(v <= 0)
                self.facts.append(z3.Implies(self(T.le(t.args[1], t.args[0])), v == 0))
            return v
        raise Exception("encode " + op)

    def opaque_mul(self, t):
        v = self.var(t)
        # sign of the product from the signs of its factors
        zero, neg = [], None
        for a, e in zip(t.args, t.val):
            x = self(a)
            if e > 0:
                zero.append(x == 0)
            if e % 2:
                neg = (x < 0) if neg is None else z3.Xor(neg, x < 0)
        r = v > 0 if neg is None else z3.If(neg, v < 0, v > 0)
        self.facts.append(z3.If(z3.Or(zero), v == 0, r) if zero else r)
        return v

    def inverse(self, a):
        k = ("inv", a.id)
        v = self.memo.get(k)
        if v is None:
            v = z3.Real("i%d" % a.id)
            self.memo[k] = v
            x = self(a)
            if self.linear:
                self.facts.append(z3.And(v != 0, (v > 0) == (x > 0)))
            else:
                self.facts.append(v * x == 1)
        return v

    def congruence(self, o, t):
        if o.sort == "B" or t.sort != o.sort:
            eqv = self.memo.get(o.id)
            if t.sort != o.sort:
                return
        eqs = []
        for x, y in zip(o.args, t.args):
            c = T.eq(x, y)
            if c is T.FALSE:
                return
            if c is not T.TRUE:
                eqs.append(self(c))
        ov, tv = self.vars[o.id][1], self.vars[t.id][1]
        self.facts.append(z3.Implies(z3.And(eqs) if eqs else z3.BoolVal(True), ov == tv))

    def application(self, t):
        n = t.val
        if n == "i2r":
            return z3.ToReal(self(t.args[0]))
        a = t.args[0]
        if n == "floor":
            v = self.var(t)
            x = self(a)
            self.facts += [z3.ToReal(v) <= x, x < z3.ToReal(v) + 1]
            return v
        v = self.var(t)
        f = self.facts
        if n == "inv":
            x = self(a)
            if not self.linear:
                f.append(z3.Implies(x != 0, v * x == 1))
            f.append(z3.Implies(x > 0, v > 0))
            f.append(z3.Implies(x < 0, v < 0))
            return v
        if n == "idiv" or n == "imod":
            x, y = self(a), self(t.args[1])
            if t.args[1].op == "num" and t.args[1].val > 0:
                f.append(z3.Implies(x >= 0, v == (x / y if n == "idiv" else x % y)))
            return v
        if n in ("sqrt", "exp", "log", "tanh", "sinh", "cosh", "atan", "erf", "pow", "sin", "cos", "tan", "asin", "acos"):
            x = self(a)
        else:
            return v
        group = self.apps.setdefault(n if n != "pow" else ("pow",), [])
        if n == "sqrt":
            f.append(v >= 0)
            f.append(z3.Implies(x > 0, v > 0))
            f.append(z3.Implies(x == 0, v == 0))
            if not self.linear:
                f.append(z3.Implies(x >= 0, v * v == x))
            for u, ux, uv in group:
                f.append(z3.Implies(z3.And(x >= 0, ux >= 0), z3.And((x < ux) == (v < uv), (x == ux) == (v == uv))))
        elif n == "exp":
            f.append(v > 0)
            f.append(v >= 1 + x)
            f.append(z3.Implies(x < 1, v * (1 - x) <= 1) if not self.linear else z3.And((x < 0) == (v < 1), (x > 0) == (v > 1)))
            f.append(z3.And((x < 0) == (v < 1), (x > 0) == (v > 1)))
            for u, ux, uv in group:
                f.append(z3.And((x < ux) == (v < uv), (x == ux) == (v == uv)))
        elif n == "log":
            f.append(z3.Implies(x > 0, z3.And((x > 1) == (v > 0), (x < 1) == (v < 0), v <= x - 1)))
        elif n in ("tanh", "erf", "atan", "sinh", "asin"):
            f.append((x > 0) == (v > 0))
            f.append((x < 0) == (v < 0))
            if n in ("tanh", "erf"):
                f += [v < 1, v > -1]
            if n in ("tanh", "atan"):
                f.append(z3.Implies(x > 0, v < x))
                f.append(z3.Implies(x < 0, v > x))
            if n == "sinh":
                f.append(z3.Implies(x > 0, v > x))
                f.append(z3.Implies(x < 0, v < x))
            if n == "atan":
                p = self(T.sym("pi"))
                f += [2 * v < p, 2 * v > -p]
            for u, ux, uv in group:
                f.append(z3.And((x < ux) == (v < uv), (x == ux) == (v == uv)))
        elif n == "cosh":
            f.append(v >= 1)
            f.append((x == 0) == (v == 1))
        elif n in ("sin", "cos"):
            f += [v <= 1, v >= -1]
            f.append(z3.Implies(x == 0, v == (0 if n == "sin" else 1)))
            for u, ux, uv in group:
                f.append(z3.Implies(x == ux, v == uv))
        elif n == "pow":
            y = self(t.args[1])
            f.append(z3.Implies(x > 0, v > 0))
            f.append(z3.Implies(z3.And(x == 0, y > 0), v == 0))
            f.append(z3.Implies(y == 0, v == 1))
            f.append(z3.Implies(y == 1, v == x))
            f.append(z3.Implies(x == 1, v == 1))
            f.append(z3.Implies(z3.And(x > 1, y > 0), v > 1))
            f.append(z3.Implies(z3.And(x > 1, y < 0), v < 1))
            f.append(z3.Implies(z3.And(x > 0, x < 1, y > 0), v < 1))
            f.append(z3.Implies(z3.And(x > 0, x < 1, y < 0), v > 1))
            for (u, uy), ux, uv in group:
                f.append(z3.Implies(z3.And(x == ux, y == uy), v == uv))
                f.append(z3.Implies(z3.And(x > 0, ux > 0, y == uy, y > 0), (x < ux) == (v < uv)))
                f.append(z3.Implies(z3.And(x == ux, x > 1), (y < uy) == (v < uv)))
                f.append(z3.Implies(z3.And(x == ux, x < 1, x > 0), (y < uy) == (v > uv)))
            group.append(((t, y), x, v))
            return v
        group.append((t, x, v))
        return v


def body_sign(s):
    b = s.args[2]
    return rough_sign(b)


def rough_sign(b):
    """'+' (>= 0), '-' (<= 0) or None, without context"""
    if b.op == "num":
        return "+" if b.val >= 0 else "-"
    if b.op == "ite":
        x, y = rough_sign(b.args[1]), rough_sign(b.args[2])
        if b.args[1] is T.ZERO:
            return y
        if b.args[2] is T.ZERO:
            return x
        return x if x == y else None
    if b.op == "mul":
        sg = 1
        for a, e in zip(b.args, b.val):
            if e % 2 == 0:
                continue
            x = rough_sign(a)
            if x is None:
                return None
            if x == "-":
                sg = -sg
        return "+" if sg > 0 else "-"
    if b.op == "add":
        sg = None
        items = [(rough_sign(a), q) for a, q in zip(b.args, b.val[0])]
        if b.val[1] != 0:
            items.append(("+", b.val[1]))
        for x, q in items:
            if x is None:
                return None
            if q < 0:
                x = "-" if x == "+" else "+"
            if sg is None:
                sg = x
            elif sg != x:
                return None
        return sg
    if b.op == "app" and b.val in ("sqrt", "exp", "cosh"):
        return "+"
    if b.op == "sum":
        return rough_sign(b.args[2])
    return None


# ------------------------------------------------------------ quick oracle
_qcache = {}
_kept = []


def relevant(pc, c):
    """conjuncts of pc connected to c through shared symbols"""
    syms = [atoms(x) for x in pc]
    cur = set(atoms(c))
    use = [False] * len(pc)
    ch = True
    while ch:
        ch = False
        for i, s in enumerate(syms):
            if not use[i] and not s.isdisjoint(cur):
                use[i] = True
                if not s <= cur:
                    cur |= s
                    ch = True
    return [x for x, u in zip(pc, use) if u]


_atoms = {}


def atoms(t):
    r = _atoms.get(t.id)
    if r is None:
        if t.op == "sym":
            r = frozenset((t.val,)) if not t.args else frozenset((t.val,)).union(*[atoms(a) for a in t.args])
        elif t.args:
            r = frozenset().union(*[atoms(a) for a in t.args])
        else:
            r = frozenset()
        _atoms[t.id] = r
    return r


# axioms about symbols with a universal meaning: name -> function(arguments)
axioms = {}
_ax_syms = {}
_always = {}


def always(name, key, f):
    """f(arguments) holds of every application of the symbol"""
    fs = _always.setdefault(name, {})
    if name not in axioms:
        fs.clear()
    if key not in fs:
        fs[key] = f
        axioms[name] = lambda a: [x for g in fs.values() for x in g(a)]
        _ax_syms.clear()


def non_negative(name):
    always(name, "non-negative", lambda a: [T.le0(T.neg(T.sym(name, "I", a)))])


def axiom_symbols(t):
    """occurrences of such symbols in t (not under their binder)"""
    if not axioms or atoms(t).isdisjoint(axioms):
        return ()
    r = _ax_syms.get(t.id)
    if r is None:
        r = {}
        for a in t.args:
            for x in axiom_symbols(a):
                if x.fv <= t.fv:
                    r[x.id] = x
        if t.op == "sym" and t.val in axioms:
            r[t.id] = t
        r = tuple(r.values())
        _ax_syms[t.id] = r
    return r


def axioms_for(ts):
    out, seen, todo = [], set(), list(ts)
    have = {t.id for t in ts}
    while todo:
        for x in axiom_symbols(todo.pop()):
            if x.id not in seen:
                seen.add(x.id)
                for a in axioms[x.val](x.args):
                    if a is not T.TRUE and a.id not in have:
                        have.add(a.id)
                        out.append(a)
                        todo.append(a)
    return out


class Refine:
    """a term without the cases that cannot occur under the enclosing conditions"""

    def __init__(self):
        self.up, self.atoms, self.trail, self.memo, self.axs = {}, {}, [], {}, set()

    def assume(self, c):
        """a condition holds"""
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        if c.op == "not":
            x = c.args[0]
            if x.op == "and":
                left = [a for a in x.args if self.holds(a) is not True]
                if len(left) == 1:
                    self.assume(T.not_(left[0]))
                    return
            elif x.op == "or":
                for a in x.args:
                    self.assume(T.not_(a))
                return
            elif x.op == "le0" and x.args[0].sort == "I":
                self.assume(T.le0(T.add(T.neg(x.args[0]), T.IONE)))
        elif c.op == "or":
            left = [a for a in c.args if self.holds(a) is not False]
            if len(left) == 1:
                self.assume(left[0])
                return
        self.put(self.atoms, c.id, c)
        if c.op == "le0" and c.args[0].sort == "I":
            f, k = self.form(c.args[0])
            if f not in self.up or self.up[f] > -k:
                self.put(self.up, f, -k)
        elif c.op == "eq0" and c.args[0].sort == "I":
            self.assume(T.le0(c.args[0]))
            self.assume(T.le0(T.neg(c.args[0])))

    def put(self, d, k, v):
        self.trail.append((d, k, d.get(k)))
        d[k] = v

    def undo(self, n):
        while len(self.trail) > n:
            d, k, v = self.trail.pop()
            if v is None:
                del d[k]
            else:
                d[k] = v

    def form(self, t):
        d, k = T._linear(t)
        return frozenset((x.id, q) for x, q in d.items()), k

    def holds(self, c):
        if c.op == "bool":
            return c.val
        if c.id in self.atoms:
            return True
        if T.not_(c).id in self.atoms:
            return False
        if c.op in ("and", "or"):
            rs = [self.holds(a) for a in c.args]
            if c.op == "and":
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        if c.op == "not":
            r = self.holds(c.args[0])
            return None if r is None else not r
        if c.op == "le0" and c.args[0].sort == "I":
            t = c.args[0]
            f, k = self.form(t)
            if f in self.up and self.up[f] <= -k:
                return True
            f, k = self.form(T.neg(t))
            if f in self.up and self.up[f] < -k:
                return False
        return None

    def axioms(self, t):
        for a in axioms_for([t]):
            if a.id not in self.axs:
                self.axs.add(a.id)
                n = len(self.trail)
                self.assume(a)
                del self.trail[n:]

    def term(self, t):
        if not self.trail:
            self.axioms(t)
        return self.walk(t)

    def walk(self, t):
        if not t.args or not self.interesting(t):
            return t
        if t.op == "ite":
            c = self.cond(t.args[0])
            if c.op == "bool":
                return self.walk(t.args[1] if c.val else t.args[2])
            n = len(self.trail)
            self.assume(c)
            a = self.walk(t.args[1])
            self.undo(n)
            self.assume(T.not_(c))
            b = self.walk(t.args[2])
            self.undo(n)
            return T.ite(c, a, b)
        if t.sort == "B":
            return self.cond(t)
        if t.op == "sum":
            lo, hi, body = t.args
            n = len(self.trail)
            # the name of the bound variable must not be that of an outer one
            k = T.fresh_name("w")
            x = T.sym(k, "I")
            self.assume(T.le(lo, x))
            self.assume(T.lt(x, hi))
            b = T.subst(body, {t.val: x})
            self.axioms(b)
            b = self.walk(b)
            self.undo(n)
            return T.sum_(self.walk(lo), self.walk(hi), k, b)
        if t.op in ("lam", "fold"):
            return t
        return T.rebuild(t, [self.walk(a) for a in t.args])

    def interesting(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = t.op == "ite" or any(self.interesting(a) for a in t.args)
        return r

    def cond(self, c):
        r = self.holds(c)
        if r is not None:
            return T.boolc(r)
        if c.op in ("and", "or"):
            out, n = [], len(self.trail)
            for a in c.args:
                a = self.cond(a)
                out.append(a)
                if a.op != "bool":
                    self.assume(a if c.op == "and" else T.not_(a))
            self.undo(n)
            return T.and_(*out) if c.op == "and" else T.or_(*out)
        if c.op == "not":
            return T.not_(self.cond(c.args[0]))
        if c.args and self.interesting(c.args[0]) and c.op in ("le0", "lt0", "eq0"):
            return T.rebuild(c, [self.walk(a) for a in c.args])
        return c


def quick(pc, c):
    """True / False / None: is c implied (refuted) by pc?  Deterministic."""
    rel = relevant(pc, c)
    rel = rel + axioms_for(rel + [c])
    key = (tuple(x.id for x in rel), c.id)
    if key in _qcache:
        return _qcache[key]
    stats["quick"] += 1
    r = _quick(rel, c)
    _qcache[key] = r
    return r


def _check(pc, c, linear, rl):
    enc = Enc(linear)
    s = z3.Solver() if linear else z3.SolverFor("QF_NRA")
    s.set("rlimit", rl)
    fs = [enc(x) for x in pc]
    g = enc(c)
    for f in fs + enc.facts:
        s.add(f)
    s.push()
    s.add(z3.Not(g))
    a = s.check()
    if a == z3.unsat:
        return True
    s.pop()
    s.push()
    s.add(g)
    b = s.check()
    if b == z3.unsat:
        return False
    return None


def has_int_only(c):
    return not any(x.op in ("le0", "lt0") and x.args[0].sort == "R" for x in T.subterms(c).values())


_forms = {}


def has_int(t):
    return any(x.sort == "I" for x in T.subterms(t).values())


def nonlinear(ts):
    seen = {}
    for t in ts:
        T.subterms(t, seen)
    return any(x.op == "mul" for x in seen.values())


def by_intervals(c, forms):
    if c.op in ("and", "or"):
        rs = [by_intervals(x, forms) for x in c.args]
        if c.op == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if c.op == "not":
        r = by_intervals(c.args[0], forms)
        return None if r is None else not r
    if c.op in ("le0", "lt0") and c.args[0].sort == "R":
        lo, hi = interval(c.args[0], forms)
        strict = c.op == "lt0"
        if hi is not None and (hi < 0 if strict else hi <= 0):
            return True
        if lo is not None and (lo >= 0 if strict else lo > 0):
            return False
    return None


def _quick(pc, c):
    try:
        vs = unit_vectors_of(pc)
        if vs and len(vs) <= 10 and not has_int_only(c):
            r = by_intervals(c, bounded_forms(vs))
            if r is not None:
                return r
    except T.Blowup:
        pass
    try:
        r = _check(pc, c, True, 300000)
        if r is not None:
            return r
        ts = pc + [c]
        if nonlinear(ts) and sum(1 for _ in T.subterms(T.and_(*ts))) < 120:
            enc = Enc(False)
            fs = [enc(x) for x in pc]
            g = enc(c)
            for neg, res in ((True, True), (False, False)):
                s = z3.Solver()
                s.set("rlimit", 400000)
                s.set("timeout", 3000)
                for f in fs + enc.facts:
                    s.add(f)
                s.add(z3.Not(g) if neg else g)
                if s.check() == z3.unsat:
                    return res
        return None
    except z3.Z3Exception:
        return None


# -------------------------------------------------------------- full prover
class Result:
    __slots__ = ("status", "by", "model", "time")

    def __init__(self, status, by="", model=None):
        self.status, self.by, self.model = status, by, model
        self.time = 0.0


def prove(pc, goal, effort=1.0, deadline=None):
    t0 = time.time()
    p = Prover(effort, deadline)
    r = p.run(list(pc), goal)
    r.time = time.time() - t0
    stats["time"] += r.time
    return r


def flatten_pc(pc):
    out, seen = [], set()
    st = list(reversed(pc))
    while st:
        c = st.pop()
        if c.op == "and":
            st.extend(reversed(c.args))
            continue
        if c is T.TRUE or c.id in seen:
            continue
        seen.add(c.id)
        out.append(c)
    return out


def guards(pc, goal):
    """decide the integer conditions of conditionals that the path implies"""
    for _ in range(6):
        conds = {}
        for x in T.subterms(goal).values():
            if x.op == "ite":
                c = x.args[0]
                if not any(v.startswith("$b") for v in c.fv) and has_int_only(c):
                    conds[c.id] = c
        sub = {}
        for c in list(conds.values())[:40]:
            r = quick(pc, c)
            if r is not None:
                sub[c.id] = T.boolc(r)
        if not sub:
            return goal
        goal = T.replace(goal, sub)
    return goal


def common_powers(pc, goal):
    """b^(s+k) = b^s b^k for the powers of one positive sum b"""
    groups = {}
    for x in T.subterms(goal).values():
        if x.op == "app" and x.val == "pow" and x.args[0].op == "add" and not any(v.startswith("$b") for v in x.fv):
            d, c = T._linear(x.args[1])
            groups.setdefault((x.args[0].id, tuple(sorted((a.id, q) for a, q in d.items()))), []).append((c, x))
    sub = {}
    for g in groups.values():
        cs = {c for c, _ in g}
        lo = min(cs)
        if len(cs) == 1 or any((c - lo).denominator != 1 for c in cs):
            continue
        b = g[0][1].args[0]
        if quick(pc, T.lt0(T.neg(b))) is not True:
            continue
        base = [x for c, x in g if c == lo][0]
        for c, x in g:
            if c != lo:
                sub[x.id] = T.mul(base, T.ipow(b, int(c - lo)))
    return sub


class Prover:
    def __init__(self, effort, deadline):
        self.effort = effort
        self.deadline = deadline
        self.budget = 400
        self.simplified = set()

    def run(self, pc, goal, depth=0):
        pc = flatten_pc(pc)
        pc = pc + axioms_for(pc + [goal])
        if any(c is T.FALSE for c in pc):
            stats["trivial"] += 1
            return Result("proved", "trivial")
        if goal is T.TRUE:
            stats["trivial"] += 1
            return Result("proved", "trivial")
        ids = {c.id for c in pc}
        if goal.id in ids:
            stats["trivial"] += 1
            return Result("proved", "trivial")
        if goal.op == "and":
            by = []
            for g in goal.args:
                r = self.run(pc, g, depth)
                if r.status != "proved":
                    return r
                by.append(r.by)
            return Result("proved", max(by, key=len))
        # a goal that is a disjunction: assume the negation of the simple parts
        if goal.op == "or":
            simple = [g for g in goal.args if g.op in ("le0", "lt0", "eq0", "not", "sym")]
            if simple and len(simple) < len(goal.args) or len(goal.args) >= 2:
                best = max(goal.args, key=lambda g: sum(1 for _ in T.subterms(g)))
                rest = [g for g in goal.args if g is not best]
                return self.run(pc + [T.not_(g) for g in rest], best, depth)
        pc, goal, ch = simplify(pc, goal)
        if ch:
            k = (goal.id, frozenset(c.id for c in pc))
            if k not in self.simplified:
                self.simplified.add(k)
                return self.run(pc, goal, depth)
        if depth == 0:
            # a witness of the negation of a universal statement
            for c in list(pc):
                f = forall_form(c.args[0]) if c.op == "not" and c.args[0].op == "eq0" else None
                if f is not None:
                    q = T.fresh("q", "I")
                    pc += [T.le(f[0], q), T.lt(q, f[1]), T.not_(T.subst(f[3], {f[2]: q}))]
            goal = guards(pc, goal)
            if _always:
                r = Refine()
                for c in pc:
                    r.assume(c)
                goal = r.term(goal)
            pw = common_powers(pc, goal)
            if pw:
                return self.run([T.replace(c, pw) for c in pc] + list(pc), T.replace(goal, pw), 1)
            if goal is T.TRUE:
                stats["trivial"] += 1
                return Result("proved", "trivial")
        if goal.op == "bool" and goal.val:
            stats["trivial"] += 1
            return Result("proved", "trivial")
        # algebra
        if goal.op == "eq0" and goal.args[0].sort == "R":
            r = self.algebra(pc, goal.args[0])
            if r:
                return Result("proved", r)
        if goal.op == "eq0":
            f = forall_form(goal)
            if f is not None:
                lo, hi, nm, cond = f
                k = T.fresh("q", "I")
                return self.run(pc + [T.le(lo, k), T.lt(k, hi)], T.subst(cond, {nm: k}), depth)
        if goal.op in ("le0", "lt0") and goal.args[0].sort == "R":
            g2 = reduce_ineq(pc, goal)
            if g2 is not goal:
                try:
                    if self.lin(relevant(pc, goal), goal):
                        stats["z3"] += 1
                        return Result("proved", "z3")
                except z3.Z3Exception:
                    pass
                if g2 is T.TRUE:
                    stats["ring"] += 1
                    return Result("proved", "ring")
                if sum(x.op == "app" and x.val == "exp" for x in T.subterms(goal).values()) > 1 and depth < 3:
                    # merging exponentials hides their bounds
                    enc, fs, g = self.encode(pc, goal)
                    for kind in ("default", "nlsat"):
                        if self.solve(fs, g, kind, 1500)[0] == z3.unsat:
                            stats["z3"] += 1
                            return Result("proved", "z3")
                if g2 is not T.FALSE:
                    goal = g2
        if goal.op in ("le0", "lt0") and goal.args[0].sort == "R" and depth < 8:
            facts = self.sum_signs(pc, goal)
            if facts:
                return self.run(pc + facts, goal, 8)
        if goal is T.FALSE and self.excluded(pc):
            return Result("proved", "unit vector lemma")
        if goal.op in ("le0", "lt0") and goal.args[0].sort == "R" and interval_goal(pc, goal):
            stats["z3"] += 0
            return Result("proved", "unit vector lemma")
        # case analysis on the conditions of conditionals
        c = split_atom(goal, pc)
        if c is not None and depth < 14 and self.budget > 0:
            self.budget -= 1
            res = None
            for v, lit in ((True, c), (False, T.not_(c))):
                if quick(pc, lit) is False:
                    continue
                sub = {c.id: T.boolc(v), T.not_(c).id: T.boolc(not v)}
                g2 = T.replace(goal, sub)
                pc2 = [T.replace(x, sub) for x in pc] + [lit]
                r = self.run(pc2, g2, depth + 1)
                if r.status != "proved":
                    return r
                res = r
            return res or Result("proved", "trivial")
        return self.smt(pc, goal)

    def excluded(self, pc):
        """a condition of the path cannot hold by the bounds of unit vectors"""
        vs = unit_vectors_of(pc)
        if not vs or len(vs) > 10:
            return False
        forms = None
        for c in pc:
            cs = c.args if c.op == "or" else (c,)
            if not all(x.op in ("le0", "lt0") and x.args[0].sort == "R" for x in cs):
                continue
            if forms is None:
                forms = bounded_forms(vs)
            try:
                for x in cs:
                    lo, hi = interval(x.args[0], forms)
                    if lo is None or not (lo > 0 if x.op == "le0" else lo >= 0):
                        break
                else:
                    return True
            except T.Blowup:
                pass
        return False

    # ------------------------------------------------------------ algebra
    def algebra(self, pc, t):
        if T.ring_zero(t):
            stats["ring"] += 1
            return "ring"
        try:
            u, pc2 = subst_equalities(pc, t)
        except T.Blowup:
            u, pc2 = t, pc
        if u is not t and T.ring_zero(u):
            stats["ring"] += 1
            return "ring"
        try:
            if reduce_by(pc2, u):
                stats["ring"] += 1
                return "ring"
        except T.Blowup:
            pass
        if any(x.op == "sum" for x in T.subterms(u).values()):
            if self.sums(pc2, u):
                stats["sum"] += 1
                return "sum lemma"
        return None

    def sum_signs(self, pc, goal):
        """signs of the sums in an inequality, and of their combinations over
        one range, from the sign of the summands"""
        have = {c.id for c in pc}
        out = []

        def signs(lo, hi, body, total):
            k = T.fresh("sg", "I")
            b = body(k)
            for g, fact in ((T.le(T.ZERO, b), T.le(T.ZERO, total)), (T.le(b, T.ZERO), T.le(total, T.ZERO))):
                if fact is T.TRUE or fact.id in have:
                    continue
                r = Prover(self.effort * 0.4, self.deadline)
                r.budget = 40
                if r.run(pc + [T.le(lo, k), T.lt(k, hi)], g, 8).status == "proved":
                    stats["sum"] += 1
                    out.append(fact)
                    return
        sums = [x for x in T.subterms(goal).values() if x.op == "sum" and x.sort == "R"
                and not any(v.startswith("$b") for v in x.fv)]
        for x in sums[:6]:
            signs(x.args[0], x.args[1], lambda k, x=x: T.subst(x.args[2], {x.val: k}), x)
        # linear combination over one range
        d, c = T._linear(goal.args[0])
        groups = {}
        for t, q in d.items():
            co, f = T._factors(t)
            ss = [b for b, e in f.items() if b.op == "sum" and e == 1]
            if len(ss) == 1:
                x = ss[0]
                rest = T.mul(T.num(co * q), *[T.ipow(b, e) for b, e in f.items() if b is not x])
                groups.setdefault((x.args[0].id, x.args[1].id), []).append((x, rest))
        for g in groups.values():
            if len(g) > 1 or g[0][1].op != "num":
                total = T.ZERO
                for x, r in g:
                    total = T.add(total, T.mul(x, r))

                def body(k, g=g):
                    b = T.ZERO
                    for x, r in g:
                        b = T.add(b, T.mul(r, T.subst(x.args[2], {x.val: k})))
                    return b
                signs(g[0][0].args[0], g[0][0].args[1], body, total)
        return out

    def sums(self, pc, t, depth=0):
        """linear combination of sums over the same range"""
        if depth > 4:
            return False
        try:
            t = T.normal(t)
            p = T.reduce_poly(T.poly(t))
        except T.Blowup:
            return False
        groups = {}
        rest = {}
        for m, c in p.items():
            ss = [(a, e) for a, e in m if T.atom(a).op == "sum"]
            if not ss:
                rest[m] = c
                continue
            # outermost range: take the sum whose bounds come first
            a, e = ss[0]
            if e < 1:
                return False
            s = T.atom(a)
            co = T.num(c)
            for x, y in m:
                if x == a:
                    y -= 1
                if y:
                    co = T.mul(co, T.ipow(T.atom(x), y))
            k = T.sym("$sum%d" % depth, "I")
            body = T.mul(co, T.subst(s.args[2], {s.val: k}))
            groups.setdefault((s.args[0].id, s.args[1].id), [s.args[0], s.args[1], T.ZERO])
            g = groups[(s.args[0].id, s.args[1].id)]
            g[2] = T.add(g[2], body)
        if not groups:
            return False
        if rest and not T.ring_zero(T.from_poly(rest)):
            # a product of two sums was taken apart the other way, or a plain
            # remainder: not handled here
            if not reduce_by(pc, T.from_poly(rest)):
                return False
        k = T.sym("$sum%d" % depth, "I")
        for lo, hi, body in groups.values():
            g = T.eq0(body) if body.op != "num" else (T.TRUE if body.val == 0 else T.FALSE)
            if g is T.TRUE:
                continue
            if T.ring_zero(body):
                continue
            r = Prover(self.effort * 0.5, self.deadline)
            rng = [T.le(lo, k), T.lt(k, hi)]
            if body.op == "num":
                return False
            if any(x.op == "sum" for x in T.subterms(body).values()) and r.sums(pc + rng, body, depth + 1):
                continue
            if r.run(pc + rng, g, 6).status != "proved":
                return False
        return True

    # ---------------------------------------------------------------- SMT
    def smt(self, pc, goal):
        rel = relevant(pc, goal) if goal.op != "bool" else pc
        inst = instantiate(rel, goal)
        try:
            ints = [x for x in rel + inst if has_int_only(x)]
            if goal.op == "bool" and ints and self.lin(ints, goal):
                stats["z3"] += 1
                return Result("proved", "z3")
            if self.lin(rel + inst, goal):
                stats["z3"] += 1
                return Result("proved", "z3")
            near = [x for x in instantiate(rel, goal, True) if not has_int_only(x)]
            if near and goal.op != "bool":
                near = [simplify(rel, guards(rel, x))[0:2][1] for x in near]
                if self.lin(relevant(rel + near, goal), goal):
                    stats["z3"] += 1
                    return Result("proved", "z3")
        except z3.Z3Exception:
            pass
        enc, fs, g = self.encode(rel + inst, goal)
        for kind, ms in (("default", 1500), ("nlsat", 3000), ("default2", 5000)):
            r, m = self.solve(fs, g, kind, ms)
            if r == z3.unsat:
                stats["z3"] += 1
                return Result("proved", "z3")
            if r == z3.sat:
                model = extract_model(m, enc)
                if len(rel) < len(pc):
                    enc2, fs2, g2 = self.encode(pc + inst, goal)
                    for kind2 in ("default", "nlsat"):
                        r2, m2 = self.solve(fs2, g2, kind2, 2500)
                        if r2 == z3.unsat:
                            stats["z3"] += 1
                            return Result("proved", "z3")
                        if r2 == z3.sat:
                            model = extract_model(m2, enc2)
                            break
                return Result("refuted", "z3", model)
        r = cvc5_check(fs, g, int(3000 * self.effort))
        if r == "unsat":
            stats["cvc5"] += 1
            return Result("proved", "cvc5")
        return Result("unproven", "", None)

    def encode(self, pc, goal):
        enc = Enc(False)
        g = enc(goal)
        fs = [enc(x) for x in pc]
        return enc, fs + enc.facts, g

    def lin(self, pc, goal):
        enc = Enc(True)
        g = enc(goal)
        fs = [enc(x) for x in pc]
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in fs + enc.facts:
            s.add(f)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def solve(self, fs, g, kind, ms):
        ms = int(ms * self.effort)
        if self.deadline is not None:
            left = self.deadline - time.time()
            if left <= 0.2:
                return None, None
            ms = int(min(ms, left * 1000))
        s = z3.SolverFor("QF_NRA") if kind == "nlsat" else z3.Solver()
        if kind == "default2":
            s.set("random_seed", 3)
        s.set("timeout", max(ms, 100))
        try:
            for f in fs:
                s.add(f)
            s.add(z3.Not(g))
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return None, None


def unit_vectors_of(pc):
    """vectors whose squared components sum to one, from the path condition"""
    out, seen = [], set()
    for c in pc:
        if c.op != "eq0" or c.args[0].op != "add" or c.args[0].sort != "R":
            continue
        a = c.args[0]
        qs, k = a.val
        if len(a.args) not in (2, 3) or len(set(qs)) != 1 or k != -qs[0]:
            continue
        comp = []
        for x in a.args:
            if x.op == "mul" and len(x.args) == 1 and x.val[0] == 2:
                comp.append(x.args[0])
        if len(comp) == len(a.args):
            comp.sort(key=lambda t: T.show(t))
            key = tuple(t.id for t in comp)
            if key not in seen:
                seen.add(key)
                out.append(comp)
    return out


def bounded_forms(vs):
    """polynomials in unit vectors that stay within [-1, 1]"""
    key = tuple(x.id for v in vs for x in v)
    if key in _forms:
        return _forms[key]
    forms = _forms[key] = set()

    def put(t):
        n = T.normal(t)
        forms.add(n.id)
        forms.add(T.normal(T.neg(n)).id)

    def dot(a, b):
        return T.add(*[T.mul(x, y) for x, y in zip(a, b)])
    for a in vs:
        for x in a:
            put(x)
    for a in vs:
        for b in vs:
            if len(a) != len(b):
                continue
            put(dot(a, b))
            if len(a) == 2:
                put(T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0])))
            for n in (vs if len(a) == 3 else ()):
                if len(n) == 3:
                    # (a x n) . (b x n)
                    put(T.sub(dot(a, b), T.mul(dot(a, n), dot(n, b))))
                    cr = lambda u, v: [T.sub(T.mul(u[(i + 1) % 3], v[(i + 2) % 3]), T.mul(u[(i + 2) % 3], v[(i + 1) % 3])) for i in range(3)]
                    put(dot(cr(a, n), cr(b, n)))
    return forms


def interval(t, forms, depth=0):
    """(lo, hi), None for unbounded"""
    if t.op == "num":
        return t.val, t.val
    if depth > 8:
        return None, None
    if t.sort == "R" and T.normal(t).id in forms:
        return Fraction(-1), Fraction(1)
    if t.op == "add":
        q, c = t.val
        lo = hi = c
        for x, k in zip(t.args, q):
            a, b = interval(x, forms, depth + 1)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi
    if t.op == "mul":
        r = Fraction(1), Fraction(1)
        for x, e in zip(t.args, t.val):
            if e < 1:
                return None, None
            a, b = interval(x, forms, depth + 1)
            if a is None or b is None:
                return None, None
            for _ in range(e):
                ps = [u * v for u in r for v in (a, b)]
                r = min(ps), max(ps)
        return r
    if t.op == "app" and t.val == "abs":
        a, b = interval(t.args[0], forms, depth + 1)
        if a is None or b is None:
            return Fraction(0), None
        return Fraction(0), max(-a, b, Fraction(0))
    if t.op == "ite":
        a, b = interval(t.args[1], forms, depth + 1), interval(t.args[2], forms, depth + 1)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    return None, None


def interval_goal(pc, goal):
    vs = unit_vectors_of(pc)
    if not vs or len(vs) > 10:
        return False
    try:
        lo, hi = interval(goal.args[0], bounded_forms(vs))
    except T.Blowup:
        return False
    return hi is not None and (hi <= 0 if goal.op == "le0" else hi < 0)


def sign_of(pc_ids, t):
    """+1/-1 for a factor whose sign the path condition states, else 0"""
    if t.op == "num":
        return 1 if t.val > 0 else -1
    if t.op == "app" and t.val in ("exp", "cosh"):
        return 1
    if T.lt0(T.neg(t)).id in pc_ids:
        return 1
    if T.lt0(t).id in pc_ids:
        return -1
    return 0


def reduce_ineq(pc, goal):
    """t <= 0 with t reduced by the equalities of pc and without factors of
    known sign"""
    try:
        t = T.normal(goal.args[0])
        p = reduce_poly_by(pc, t)
        if p is None:
            p = T.reduce_poly(T.poly(t))
    except T.Blowup:
        return goal
    if not p:
        return T.TRUE if goal.op == "le0" else T.FALSE
    ids = {c.id for c in pc}
    # common monomial
    ms = list(p)
    com = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(com):
            e = d.get(a, 0)
            if com[a] > 0:
                com[a] = min(com[a], e) if e > 0 else 0
            else:
                com[a] = max(com[a], e) if e < 0 else 0
            if not com[a]:
                del com[a]
    # all negative powers of atoms of known sign can be multiplied away
    for m in ms:
        for a, e in m:
            if e < 0 and sign_of(ids, T.atom(a)):
                com[a] = min(com.get(a, 0), e)
    f = 1
    div = {}
    for a, e in com.items():
        t = T.atom(a)
        sg = sign_of(ids, t)
        if sg:
            div[a] = e
            if sg < 0 and e % 2:
                f = -f
    if not div and goal.args[0] is T.from_poly(p):
        return goal
    inv = tuple(sorted((a, -e) for a, e in div.items()))
    q = {}
    for m, c in p.items():
        q[T._mono_mul(m, inv)] = c * f
    t = T.from_poly(q)
    return T.le0(t) if goal.op == "le0" else T.lt0(t)


def forall_form(goal):
    s = goal.args[0]
    if s.op == "sum":
        b = s.args[2]
        if b.op == "ite" and {b.args[1], b.args[2]} == {T.ZERO, T.ONE}:
            cond = b.args[0] if b.args[1] is T.ZERO else T.not_(b.args[0])
            return s.args[0], s.args[1], s.val, cond
    return None


def instantiate(pc, goal, near=False):
    """instances of universally quantified hypotheses at the index terms of
    the problem (of the goal)"""
    fs = []
    for c in pc:
        if c.op == "eq0":
            f = forall_form(c)
            if f:
                fs.append(f)
    if not fs:
        return []
    idx = {}
    for t in ({**T.subterms(goal)} if near else {**T.subterms(goal), **T.subterms(T.and_(*pc))}).values():
        if t.op == "sym" and t.args:
            for a in t.args:
                if a.sort == "I" and not any(v.startswith("$b") for v in a.fv):
                    idx[a.id] = a
    out = []
    for lo, hi, nm, cond in fs:
        for a in sorted(idx.values(), key=lambda a: (a.op != "sym" or bool(a.args), a.op == "num", a.id))[:24]:
            out.append(T.implies(T.and_(T.le(lo, a), T.lt(a, hi)), T.subst(cond, {nm: a})))
    return out


def simplify(pc, goal):
    """unit propagation of the literals of pc into the goal"""
    sub = {}
    for c in pc:
        if c.op in ("le0", "lt0", "eq0", "sym", "not", "eqo"):
            sub[c.id] = T.TRUE
            sub[T.not_(c).id] = T.FALSE
    # boolean symbols
    g2 = T.replace(goal, sub) if goal.id not in sub else sub[goal.id]
    pc2 = []
    for c in pc:
        if c.id in sub:
            # simplify inside the literal (conditions of conditionals)
            inner = [T.replace(a, sub) for a in c.args] if c.op not in ("sym", "not") else None
            if inner is not None and any(x is not y for x, y in zip(inner, c.args)):
                c = T.rebuild(c, inner)
            pc2.append(c)
        else:
            pc2.append(T.replace(c, sub))
    # conditionals decided by the linear oracle
    ch = g2 is not goal or any(a is not b for a, b in zip(pc, pc2))
    return pc2, g2, ch


def split_atom(goal, pc):
    best = None
    conds = {}
    for t in T.subterms(goal).values():
        if t.op == "ite" and not any(v.startswith("$b") for v in t.args[0].fv):
            collect_atoms(t.args[0], conds)
    if not conds:
        return None
    # smallest first
    return min(conds.values(), key=lambda t: (len(T.subterms(t)), t.id))


def collect_atoms(c, out):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            collect_atoms(a, out)
    elif c.op != "bool":
        if any(x.op == "ite" for x in T.subterms(c).values() if x is not c):
            for x in T.subterms(c).values():
                if x.op == "ite" and not any(v.startswith("$b") for v in x.args[0].fv):
                    collect_atoms(x.args[0], out)
            return
        out[c.id] = c


def subst_equalities(pc, t):
    """eliminate atoms defined by equalities of the path condition"""
    pc = list(pc)
    for _ in range(12):
        done = False
        for c in pc:
            if c.op != "eq0":
                continue
            x, e = solve_for(c.args[0], t)
            if x is None:
                continue
            m = {x.id: e}
            t2 = T.replace(t, m)
            pc = [T.replace(y, m) for y in pc if y is not c]
            pc = [y for y in pc if y is not T.TRUE]
            t = t2
            done = True
            break
        if not done:
            break
    return t, pc


def solve_for(e, t):
    if e.op not in ("add", "sym"):
        return None, None
    if e.op == "sym":
        return e, T.num(0, e.sort)
    d, c = T._linear(e)
    # prefer symbols, then the term of largest id
    cands = [x for x in d if x.op in ("sym", "app", "sum", "ite") and (e.sort == "R" or abs(d[x]) == 1)]
    cands.sort(key=lambda x: (x.op != "sym", -x.id))
    for x in cands:
        rest = T.sub(e, T.scale(d[x], x))
        if x.id in T.subterms(rest):
            continue
        return x, T.scale(-1 / d[x], rest)
    return None, None


# Polynomial ideals.  `grevlex` orders monomials ((atom, exponent), ...).
def grevlex(m):
    return (sum(e for _, e in m), tuple((-a, -e) for a, e in reversed(m)))


def grevlex_max(p):
    """leading monomial: largest degree, then smallest exponent of the last
    atom in which two monomials differ"""
    best = None
    for m in p:
        if best is None or grevlex_less(best, m):
            best = m
    return best


def grevlex_less(a, b):
    da, db = sum(e for _, e in a), sum(e for _, e in b)
    if da != db:
        return da < db
    i, j = len(a) - 1, len(b) - 1
    while i >= 0 and j >= 0:
        if a[i] == b[j]:
            i -= 1
            j -= 1
            continue
        if a[i][0] == b[j][0]:
            return a[i][1] > b[j][1]
        return a[i][0] > b[j][0]
    return False


def divides(a, d):
    return all(d.get(x, 0) >= e for x, e in a)


def reduce_rules(p, rules, limit=100000):
    """normal form of p by [(leading monomial, tail of the rule)]"""
    p = dict(p)
    out = {}
    n = 0
    while p:
        m = grevlex_max(p)
        c = p.pop(m)
        dm = dict(m)
        for lm, rhs in rules:
            if divides(lm, dm):
                q = dict(dm)
                for a, e in lm:
                    q[a] -= e
                qm = tuple(sorted((a, e) for a, e in q.items() if e))
                for rm, rc in rhs.items():
                    mm = T._mono_mul(qm, rm)
                    v = p.get(mm, 0) + c * rc
                    if v == 0:
                        p.pop(mm, None)
                    else:
                        p[mm] = v
                n += 1
                if n > limit or len(p) > T.LIMIT:
                    raise T.Blowup()
                break
        else:
            out[m] = c
    return out


_bases = {}


def basis(polys, deadline=4.0):
    """a Groebner basis of the ideal when it is found quickly (any subset of
    one is sound as rewriting rules)"""
    key = tuple(sorted(tuple(sorted(p.items())) for p in polys))
    if key in _bases:
        return _bases[key]
    t0 = time.time()
    g = []

    def rule(p):
        m = grevlex_max(p)
        k = p[m]
        return (m, {q: -v / k for q, v in p.items() if q != m})

    def lcm(a, b):
        d = dict(a)
        for x, e in b:
            d[x] = max(d.get(x, 0), e)
        return d

    pairs = []

    def insert(p):
        r = rule(p)
        if not r[0]:
            return
        for i in range(len(g)):
            if g[i] is None:
                continue
            if not any(x == y for x, _ in g[i][0] for y, _ in r[0]):
                continue
            pairs.append((sum(lcm(g[i][0], r[0]).values()), i, len(g)))
        g.append(r)
    for p in sorted(polys, key=lambda p: (len(p), grevlex(grevlex_max(p)))):
        q = reduce_rules(p, g)
        if q:
            insert(q)
    while pairs and time.time() - t0 < deadline and len(g) < 80:
        pairs.sort(key=lambda x: -x[0])
        _, i, j = pairs.pop()
        l = lcm(g[i][0], g[j][0])
        s = {}
        for r, sg in ((g[i], 1), (g[j], -1)):
            q = dict(l)
            for a, e in r[0]:
                q[a] -= e
            qm = tuple(sorted((a, e) for a, e in q.items() if e))
            for rm, rc in r[1].items():
                mm = T._mono_mul(qm, rm)
                v = s.get(mm, 0) + sg * rc
                if v == 0:
                    s.pop(mm, None)
                else:
                    s[mm] = v
        s = reduce_rules(s, g)
        if s:
            insert(s)
    # drop redundant rules
    out = []
    for i, r in enumerate(g):
        if not any(j != i and divides(x[0], dict(r[0])) and (x[0] != r[0] or j < i) for j, x in enumerate(g)):
            out.append(r)
    _bases[key] = out
    return out


def reduce_by(pc, t):
    p = reduce_poly_by(pc, t, True)
    return p is not None and not p


def reduce_poly_by(pc, t, clear=False):
    """polynomial reduction of t by the polynomial equalities of pc"""
    rules = []
    for c in pc:
        if c.op == "eq0" and c.args[0].sort == "R":
            try:
                p = T.reduce_poly(T.poly(T.normal(c.args[0])))
            except T.Blowup:
                continue
            if not p or any(e < 0 for m in p for _, e in m):
                continue
            rules.append(p)
    if not rules:
        return None
    rules = basis(rules)
    p = dict(T.reduce_poly(T.poly(T.normal(t))))
    if clear:
        p = dict(clear_denominators(p))
    for _ in range(20):
        q = reduce_rules(p, rules)
        r = T.reduce_poly(q)
        if r == p:
            return r
        p = r
        if not p:
            return p
    return p


def clear_denominators(p):
    for _ in range(8):
        den = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    den[a] = min(den.get(a, 0), e)
        if not den:
            return p
        a, e = sorted(den.items())[0]
        base = T.atom(a)
        bp = {}
        for m, c in p.items():
            k = 0
            rest = []
            for x, y in m:
                if x == a:
                    k = y
                else:
                    rest.append((x, y))
            bp.setdefault(k - e, {})[tuple(rest)] = c
        basep = T.poly(base) if base.op in ("add",) else {((a, 1),): T.Fraction(1)}
        q = {}
        pw = {(): T.Fraction(1)}
        for k in range(0, max(bp) + 1):
            if k in bp:
                T._padd(q, T._pmul(bp[k], pw))
            if k < max(bp):
                pw = T._pmul(pw, basep)
        p = T.reduce_poly(q)
    return p


# ------------------------------------------------------------------ models
def extract_model(m, enc):
    out = {}

    def num(v):
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(30).as_fraction())
        return None
    val = {}
    for tid, (t, v) in list(enc.vars.items()):
        x = m.eval(v, model_completion=True)
        if t.sort == "B":
            val[tid] = 1.0 if z3.is_true(x) else 0.0
        else:
            try:
                val[tid] = num(x)
            except Exception:
                val[tid] = None
    for tid, (t, v) in list(enc.vars.items()):
        if t.op != "sym" or val[tid] is None or t.val.startswith("$"):
            continue
        name = t.val
        ok = True
        for a in t.args:
            if a.op == "num":
                x = float(a.val)
            else:
                try:
                    x = num(m.eval(enc(a), model_completion=True))
                except Exception:
                    x = None
            if x is None:
                ok = False
                break
            name += "[%d]" % int(x)
        if ok:
            out[name] = val[tid]
    return out


def cvc5_check(fs, g, ms):
    try:
        import cvc5
    except ImportError:
        return None
    s = z3.Solver()
    for f in fs:
        s.add(f)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(ms))
        slv.setOption("nl-ext-tplanes", "true")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "o")
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in out:
                return "unsat"
            if out.strip() == "sat":
                return "sat"
    except Exception:
        return None
    return None
