"""Distributed vectors, matrices, constraints and index sets, by their value
at one arbitrary degree of freedom of each block.

A block vector is a structure whose field k is the value at an arbitrary
degree of freedom of block k; what a library routine computes from whole
vectors (a norm, the solution of a linear system) is a symbol named after the
identity of the terms that describe them, so that it is the same for the same
vectors and unrelated otherwise."""
import terms as T
from values import (F, FZERO, Opq, Loc, Ptr, Struct, Arr, Str, Unsupported, fadd, fsub, fmul, merge)

NO = None            # set by models
V = "dealii::TrilinosWrappers::MPI::Vector"
BV = "dealii::TrilinosWrappers::MPI::BlockVector"
AC = "dealii::AffineConstraints"
IS = "dealii::IndexSet"
MATRIX = ("dealii::TrilinosWrappers::SparseMatrix", "dealii::TrilinosWrappers::BlockSparseMatrix")
QUIET = ("gCP::Utilities::Logger", "dealii::TrilinosWrappers::PreconditionILU",
         "dealii::TrilinosWrappers::PreconditionBase")
REPORTS = ("gCP::Utilities::Logger",)
SOLVERS = ("dealii::TrilinosWrappers::SolverDirect", "dealii::TrilinosWrappers::SolverBase",
           "dealii::TrilinosWrappers::SolverCG", "dealii::TrilinosWrappers::SolverGMRES", "dealii::SolverCG")
DOF = T.sym("$dof", "I")
N_DOFS = T.sym("$n_dofs", "I")
NOTE = ("the operations on distributed vectors act entry by entry; ghosted and distributed vectors hold the same values",
        "the constraints prescribe values of single degrees of freedom; the set of prescribed ones is arbitrary "
        "and none is an identity of another one",
        "norms and the solutions of linear systems are functions of the whole vectors and matrices")


def blocks(it):
    return [str(k) for k in range(getattr(it, "n_blocks", 2))]


def is_bv(v):
    return isinstance(v, Struct) and "0" in v.f


def is_ac(v):
    return isinstance(v, Struct) and "c0" in v.f


def used(it):
    for x in NOTE:
        it.assumed.add(x)


def ident(v):
    """name of the whole vector that v describes"""
    if isinstance(v, F):
        return "%d" % v.t.id
    if is_bv(v):
        return ",".join(ident(v.f[k]) for k in sorted(v.f))
    if isinstance(v, Opq):
        return "%d" % v.key.id
    raise Unsupported("identity of " + type(v).__name__)


def finite(v):
    if v.nan is not T.FALSE or v.und is not T.FALSE:
        raise Unsupported("possibly undefined vector")
    return v


def derived(it, name, sort, *of):
    """the symbol `name`, which is determined by `of`"""
    for v in of:
        for t in terms_of(v):
            i = it.level_of(t)
            if i:
                it.levels[i].syms.add(name)
    return T.sym(name, sort)


def terms_of(v):
    if isinstance(v, F):
        return [v.t]
    if is_bv(v):
        return [t for x in v.f.values() for t in terms_of(x)]
    if isinstance(v, Opq):
        return [v.key]
    return [v]


def norm(it, v):
    if is_bv(v):
        if len(v.f) == 1:
            return norm(it, v.f["0"])
        r = FZERO
        for k in sorted(v.f):
            n = norm(it, v.f[k])
            r = fadd(r, fmul(n, n))
        return it.fsqrt(r)
    if v.t is T.ZERO:
        return FZERO
    used(it)
    s = derived(it, "norm#" + ident(v), "R", v)
    it.nonneg(s)
    return F(s, nan=derived(it, "norm_is_nan#" + ident(v), "B", v))


def mkrec(it, rec, tid, name, args):
    n = rec["name"]
    if n == V:
        return F(T.sym(name, "R", tuple(args)))
    if n == BV:
        return Struct(it.ty(tid)["rec"], {k: F(T.sym(name + "." + k, "R", tuple(args))) for k in blocks(it)})
    if n == AC:
        f = {}
        for k in blocks(it):
            f["c" + k] = T.sym(name + ".constrained." + k, "B", tuple(args))
            f["p" + k] = F(T.sym(name + ".prescribed." + k, "R", tuple(args)))
        return Struct(it.ty(tid)["rec"], f)
    if n == IS:
        return T.sym(name + ".contains", "B", tuple(args))
    return None


def default_value(it, rec, tid):
    n = rec["name"]
    if n == V:
        return FZERO
    if n == BV:
        return Struct(it.ty(tid)["rec"], {k: FZERO for k in blocks(it)})
    if n == AC:
        return Struct(it.ty(tid)["rec"], {x: y for k in blocks(it) for x, y in (("c" + k, T.FALSE), ("p" + k, FZERO))})
    if n == IS:
        return T.FALSE
    return None


def construct(it, e, f, rec):
    n = rec["name"]
    if n not in (V, BV, AC, IS):
        return None
    args = [it.rv(a) for a in e["args"]]
    d = default_value(it, rec, e["t"])
    if args and type(args[0]) is type(d) and (f.get("copy") or f.get("move")):
        return args[0]
    return d


def zip_(fn, *vs):
    if is_bv(vs[0]):
        return Struct(vs[0].rec, {k: fn(*[v.f[k] if is_bv(v) else v for v in vs]) for k in vs[0].f})
    return fn(*vs)


def number(v):
    return F(T.i2r(v)) if isinstance(v, T.Term) else v


def entry(it, o, i):
    """the entry at dof i of the (block) vector at o"""
    v = it.val(o)
    if is_bv(v):
        if len(v.f) != 1:
            raise Unsupported("global index into several blocks")
        o, v = (o.at("0") if isinstance(o, Loc) else None), v.f["0"]
    if i is DOF:
        if isinstance(o, Loc):
            it.dofwise.add((o.addr, o.path))
        return o if o is not None else v
    finite(v)
    if v.t is T.ZERO:
        return FZERO
    return F(T.sym("entry#" + ident(v), "R", (i,)))


def distribute(c, v):
    if is_bv(v):
        return Struct(v.rec, {k: merge(c.f["c" + k], c.f["p" + k], x) for k, x in v.f.items()})
    if "c1" in c.f:
        raise Unsupported("constraints of several blocks on one vector")
    return merge(c.f["c0"], c.f["p0"], v)


def mcall(it, e, f, rec, o, m, A):
    n = rec["name"]
    if n == "dealii::PackagedOperation" and m.startswith("operator"):
        return it.val(o)
    if n in QUIET:
        for a in A:
            it.ev(a)
        return None
    if n in SOLVERS or n.startswith("dealii::Solver") and m == "solve":
        if m == "solve":
            used(it)
            a, x, b = it.rv(A[0]), it.lv(A[1]), it.rv(A[2])
            it.store(x, F(derived(it, "solution#%s#%s" % (ident(a), ident(finite(b))), "R", a, b)))
            return None
        return NO
    if n.startswith("dealii::TrilinosWrappers") or n.startswith("dealii::Block") or n in (AC, IS) or \
            n.startswith("dealii::ReadVector") or n.startswith("dealii::LinearAlgebra"):
        v = it.val(o)
        if isinstance(v, F) or is_bv(v):
            return vector_method(it, e, f, o, v, m, A)
        if is_ac(v):
            return constraints_method(it, e, f, o, v, m, A)
        if n == IS and isinstance(v, T.Term) and v.sort == "B":
            return set_method(it, e, f, o, v, m, A)
        if isinstance(v, Opq) and n in MATRIX or n.startswith("dealii::BlockMatrixBase"):
            return matrix_method(it, e, f, o, v, m, A)
    return NO


def vector_method(it, e, f, o, v, m, A):
    used(it)
    bv = is_bv(v)
    if m in ("compress", "update_ghost_values", "collect_sizes"):
        return None
    if m == "block" and bv:
        k = it.rv(A[0])
        if k.op != "num":
            ks = sorted(v.f)
            for x in ks[:-1]:
                if it.decide(T.eq(k, T.num(int(x), "I"))):
                    k = T.num(int(x), "I")
                    break
            else:
                k = T.num(int(ks[-1]), "I")
        x = str(int(k.val))
        if x not in v.f:
            it.add_obl("block %s exists" % x, T.FALSE, it.where(e))
            from interp import Infeasible
            raise Infeasible()
        return o.at(x) if isinstance(o, Loc) else v.f[x]
    if m == "operator double":
        return v
    if m == "n_blocks":
        return T.num(len(v.f) if bv else 1, "I")
    if m == "l2_norm":
        return norm(it, v)
    if m == "size" and it.pointwise:
        it.assume(T.lt(DOF, N_DOFS))
        it.assume(T.le(T.IZERO, DOF))
        return N_DOFS
    if m in ("has_ghost_elements", "size", "locally_owned_size", "memory_consumption", "get_mpi_communicator"):
        return it.mkval(f["ret"], T.fresh_name(m))
    if m in ("operator()", "operator[]"):
        return entry(it, o, it.rv(A[0]))
    if m == "reinit":
        w = it.rv(A[0])
        if not (is_bv(w) or isinstance(w, F)):
            it.store(o, zip_(lambda x: FZERO, v))
        else:
            it.store(o, zip_(lambda x: FZERO, w))
        return None
    if m == "operator=":
        w = number(it.rv(A[0]))
        if is_bv(w) and not bv:
            raise Unsupported("assignment of a block vector to a vector")
        it.store(o, w if is_bv(w) == bv else zip_(lambda x: w, v))
        return o
    if m in ("operator+=", "operator-=", "operator*=", "operator/="):
        w = number(it.rv(A[0]))
        op = {"+": fadd, "-": fsub, "*": fmul, "/": it.fdiv}[m[8]]
        it.store(o, zip_(lambda x, y: op(x, y), v, w))
        return o
    if m == "add":
        a = [number(it.rv(x)) for x in A]
        if len(a) == 1:
            r = zip_(lambda x, y: fadd(x, y), v, a[0])
        elif len(a) == 2:
            r = zip_(lambda x, s, y: fadd(x, fmul(s, y)), v, a[0], a[1])
        elif len(a) == 4:
            r = zip_(lambda x, s, y, t, z: fadd(x, fadd(fmul(s, y), fmul(t, z))), v, *a)
        else:
            raise Unsupported("add")
        it.store(o, r)
        return None
    if m == "sadd":
        a = [number(it.rv(x)) for x in A]
        if len(a) == 2:
            r = zip_(lambda x, s, y: fadd(fmul(s, x), y), v, *a)
        elif len(a) == 3:
            r = zip_(lambda x, s, t, y: fadd(fmul(s, x), fmul(t, y)), v, *a)
        else:
            raise Unsupported("sadd")
        it.store(o, r)
        return None
    if m == "equ":
        a = [number(it.rv(x)) for x in A]
        it.store(o, zip_(lambda x, s, y: fmul(s, y), v, *a))
        return None
    if m == "scale":
        it.store(o, zip_(lambda x, y: fmul(x, y), v, it.rv(A[0])))
        return None
    if m in ("locally_owned_elements",):
        return T.sym("owned.contains", "B")
    raise Unsupported("vector method " + m)


def constraints_method(it, e, f, o, v, m, A):
    used(it)
    if m == "distribute" and len(A) == 1:
        w = it.lv(A[0])
        it.store(w, distribute(v, it.load(w)))
        return None
    if m == "close":
        return None
    if m == "operator=":
        it.store(o, it.rv(A[0]))
        return o
    if m == "copy_from":
        it.store(o, it.rv(A[0]))
        return None
    if m in ("clear", "reinit"):
        it.store(o, Struct(v.rec, {k: T.FALSE if k[0] == "c" else FZERO for k in v.f}))
        return None
    if m == "merge":
        w = it.rv(A[0])
        mode = it.rv(A[1]) if len(A) > 1 else T.num(0, "I")
        r = {}
        for k in v.f:
            if k[0] != "c":
                continue
            p = "p" + k[1:]
            both = T.and_(v.f[k], w.f[k])
            if mode is T.num(0, "I"):
                if both is not T.FALSE:
                    it.assumed.add("constraints that are merged without a conflict rule have no conflicts")
                r[p] = merge(v.f[k], v.f[p], w.f[p])
            elif mode is T.num(1, "I"):
                r[p] = merge(v.f[k], v.f[p], w.f[p])
            else:
                r[p] = merge(w.f[k], w.f[p], v.f[p])
            r[k] = T.or_(v.f[k], w.f[k])
        it.store(o, Struct(v.rec, r))
        return None
    if "c1" not in v.f and A and m in ("is_constrained", "add_line", "set_inhomogeneity", "constrain_dof_to_zero",
                                       "get_inhomogeneity", "is_identity_constrained", "is_inhomogeneously_constrained", "add_constraint"):
        if isinstance(o, Loc):
            it.dofwise.add((o.addr, o.path))
        if it.rv(A[0]) is not DOF:
            raise Unsupported("constraint of another degree of freedom")
        if m == "is_constrained":
            return v.f["c0"]
        if m == "is_identity_constrained":
            return T.FALSE              # see NOTE
        if m == "get_inhomogeneity":
            return v.f["p0"]
        d = dict(v.f)
        if m in ("add_line", "constrain_dof_to_zero"):
            if m != "add_line":
                d["p0"] = FZERO
            else:
                d["p0"] = merge(v.f["c0"], v.f["p0"], FZERO)
            d["c0"] = T.TRUE
        elif m == "set_inhomogeneity":
            d["p0"] = number(it.rv(A[1]))
        else:
            raise Unsupported("constraints method " + m)
        it.store(o, Struct(v.rec, d))
        return None
    raise Unsupported("constraints method " + m)


def loop(it, s, v, bind):
    """loop over the degrees of freedom of an index set"""
    used(it)
    if not it.pointwise:
        n = derived(it, "n_elements#%d" % v.id, "I", v)
        it.nonneg(n)
        it.sym_loop(s, T.IZERO, n, None,
                    lambda k: bind(T.sym("element#%d" % v.id, "I", (k,))), s["body"], None)
        return
    one(it, s, v, lambda: bind(DOF))


def one(it, s, v, bind, own=()):
    """the part of a loop that concerns the arbitrary degree of freedom, if it
    is in v: what happens at one does not depend on the others"""
    from interp import BreakEx, ContinueEx

    def body():
        if not it.decide(v):
            return
        bind()
        try:
            it.exec(s["body"])
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported("loop over degrees of freedom that stops early")
    before, old, dofs = it.writes, set(it.heap), it.dofwise
    it.writes, it.dofwise = set(), set()
    try:
        it.merged(body)
    finally:
        w, own = it.writes, it.dofwise | set(own)
        it.writes = None if before is None else before | w
        it.dofwise = dofs | it.dofwise
    it.assumed.add("a loop over degrees of freedom treats each on its own (its writes are checked to concern the "
                   "entry of the current one)")
    for x in w:
        if x[0] in old and x not in own:
            raise Unsupported("loop over degrees of freedom that writes something else")


def set_method(it, e, f, o, v, m, A):
    used(it)
    if m in ("add_index", "clear") and isinstance(o, Loc):
        it.dofwise.add((o.addr, o.path))
    if m == "is_element":
        if it.rv(A[0]) is not DOF:
            raise Unsupported("membership of another degree of freedom")
        return v
    if m == "operator=":
        it.store(o, it.rv(A[0]))
        return o
    if m in ("clear",):
        it.store(o, T.FALSE)
        return None
    if m in ("set_size", "compress"):
        return None
    if m == "add_index":
        if it.rv(A[0]) is not DOF:
            raise Unsupported("insertion of another degree of freedom")
        it.store(o, T.TRUE)
        return None
    if m == "add_indices" and len(A) >= 1:
        w = it.rv(A[0])
        if isinstance(w, T.Term) and w.sort == "B":
            it.store(o, T.or_(v, w))
            return None
    if m == "subtract_set":
        it.store(o, T.and_(v, T.not_(it.rv(A[0]))))
        return None
    if m == "operator&":
        return T.and_(v, it.rv(A[0]))
    if m in ("operator==", "operator!="):
        # equal sets agree at the arbitrary degree of freedom
        w = it.rv(A[0])
        if v is w:
            s = T.TRUE
        else:
            a, b = sorted((v.id, w.id))
            s = derived(it, "same_set#%d,%d" % (a, b), "B", v, w)
            it.assume(T.or_(T.not_(s), T.eq(T.ite(v, T.IONE, T.IZERO), T.ite(w, T.IONE, T.IZERO))))
        return s if m == "operator==" else T.not_(s)
    if m in ("n_elements", "size"):
        if m == "n_elements":
            s = derived(it, "n_elements#%d" % v.id, "I", v)
        else:
            s = T.sym("set_size", "I")
        it.nonneg(s)
        return s
    raise Unsupported("index set method " + m)


def call(it, e, f, name):
    A = e["args"]
    if name == "dealii::TrilinosWrappers::linear_operator" or name == "dealii::linear_operator":
        used(it)
        return Opq(it.rv(A[0]).key, "linop")
    if name == "dealii::inverse_operator":
        used(it)
        a, solver = it.rv(A[0]), it.lv(A[1])
        v = it.load(solver)
        # the solvers of Trilinos only see the payload: that of an inverse
        # operator still applies the operator, that of its negative has the
        # same sign
        if isinstance(v, Opq) and v.cls.startswith("dealii::TrilinosWrappers"):
            return inverse(it, payload(a), payload(a))
        if isinstance(v, Opq) and v.cls.startswith("dealii::Solver"):
            return inverse(it, a, payload(a))
        raise Unsupported("inverse operator")
    return NO


def payload(a):
    return a.f.get("payload", a)


def inverse(it, a, p=None):
    d = {"inverse of": a}
    if p is not None:
        d["payload"] = p
    return Opq(derived(it, "inverse#%d" % a.key.id, "O", a), "linop", d)


def linop(it, op, x, y):
    """sums and products of linear operators, and their application"""
    if isinstance(y, Opq):
        d = {}
        if "payload" in x.f or "payload" in y.f or op == "-":
            d["payload"] = linop(it, "+" if op == "-" else op, payload(x), payload(y))
        if op == "*":
            # products associate
            fs = x.f.get("factors", [x]) + y.f.get("factors", [y])
            d["factors"] = fs
            return Opq(derived(it, "product#" + ",".join(ident(z) for z in fs), "O", *fs), "linop", d)
        if op in ("+", "-"):
            return Opq(derived(it, "%s#%s,%s" % (op, ident(x), ident(y)), "O", x, y), "linop", d)
    if isinstance(y, F) and op == "*":
        finite(y)
        a = x.f.get("inverse of")
        if a is not None:
            return F(derived(it, "solution#%s#%s" % (ident(a), ident(y)), "R", a, y))
        return F(derived(it, "apply#%s#%s" % (ident(x), ident(y)), "R", x, y))
    raise Unsupported("operation on linear operators")


def matrix_method(it, e, f, o, v, m, A):
    used(it)
    if m == "block":
        i, j = it.rv(A[0]), it.rv(A[1])
        return it.alloc(Opq(T.sym("block", "O", (v.key, i, j)), MATRIX[0]))
    if m == "operator=":
        w = it.rv(A[0])
        it.store(o, w if isinstance(w, Opq) else Opq(T.sym("zero matrix", "O"), v.cls))
        return o
    if m == "compress":
        return None
    return NO


def intrinsic(it, e, f, n):
    A = e["args"]
    if n == "blocks":
        it.n_blocks = int(it.rv(A[0]).val)
        return None
    if n == "object":
        from models import name_arg
        return it.alloc(it.mkval(it.strip_ref(f["ret"]), name_arg(it, A[0])))
    if n == "at":
        v = it.rv(A[0])
        if len(A) == 1:
            return v
        k = it.rv(A[1])
        r = None
        for x in sorted(v.f):
            r = v.f[x] if r is None else merge(T.eq(k, T.num(int(x), "I")), v.f[x], r)
        return r
    if n in ("constrained", "prescribed"):
        c, k = it.rv(A[0]), it.rv(A[1])
        r = None
        for x in sorted(y[1:] for y in c.f if y[0] == "c"):
            y = c.f[("c" if n == "constrained" else "p") + x]
            r = y if r is None else merge(T.eq(k, T.num(int(x), "I")), y, r)
        return r
    if n in ("ensure_same", "same"):
        i = 1 if n == "ensure_same" else 0
        a, b = it.rv(A[i]), it.rv(A[i + 1])
        if is_bv(a):
            g = T.and_(*[same(a.f[k], b.f[k]) for k in a.f])
        else:
            g = same(a, b)
        if n == "same":
            return g
        from models import name_arg
        it.add_obl(name_arg(it, A[0]), g, it.where(e))
        return None
    if n == "function_of":
        from models import name_arg
        nm = name_arg(it, A[0])
        if len(A) == 2:
            v = it.rv(A[1])
            return F(derived(it, nm + "#" + ident(v), "R", v))
        o = it.lv(A[1])
        key = nm + "#" + "#".join(ident(it.rv(a)) for a in A[2:])
        v = it.load(o)
        of = [it.rv(a) for a in A[2:]]
        if is_bv(v):
            it.store(o, Struct(v.rec, {k: F(derived(it, key + "." + k, "R", *of)) for k in v.f}))
        elif isinstance(v, F):
            it.store(o, F(derived(it, key, "R", *of)))
        else:
            it.store(o, Opq(derived(it, key, "O", *of), v.cls))
        return None
    if n == "solution":
        a, b = it.rv(A[0]), it.rv(A[1])
        return F(derived(it, "solution#%s#%s" % (ident(a), ident(b)), "R", a, b))
    if n == "schur_solution":
        d, e_, f_, g, b = [it.rv(a) for a in A]
        m = linop(it, "-", d, linop(it, "*", linop(it, "*", e_, inverse(it, g)), f_))
        return linop(it, "*", inverse(it, m), b)
    if n == "block_of":
        return it.alloc(Opq(T.sym("block", "O", (it.rv(A[0]).key, it.rv(A[1]), it.rv(A[2]))), MATRIX[0]))
    if n == "arbitrary":
        return F(T.fresh("arbitrary", "R"))
    if n == "norm":
        return norm(it, it.rv(A[0]))
    if n == "abstract":
        from models import name_arg
        it.abstracts[(name_arg(it, A[0]), int(it.rv(A[1]).val))] = it.rv(A[2])
        return None
    if n == "last_iterations":
        it.last_iterations = int(it.rv(A[0]).val)
        it.precise = True
        return None
    if n == "contains":
        return it.rv(A[0])
    if n == "invariant":
        from models import name_arg
        key = (name_arg(it, A[0]), int(it.rv(A[1]).val))
        it.invariants.setdefault(key, []).append((name_arg(it, A[2]), it.rv(A[3])))
        return None
    if n == "local_flag":
        from models import name_arg
        fr = it.loop_frame
        i = fr and fr.get("names", {}).get(name_arg(it, A[0]))
        if i is None or i not in fr["vars"]:
            raise Unsupported("local variable")
        return it.load(fr["vars"][i])
    if n == "arbitrary_set":
        return T.fresh("arbitrary_set", "B")
    if n == "arbitrary_dof":
        return DOF
    if n == "pointwise":
        it.pointwise = True
        it.universal = bool(A) and T.TRUE is it.rv(A[0])
        return None
    if n == "n_entries":
        from models import name_arg
        it.count_rows = True
        v = it.rv(A[0])
        return dict(v.f).get("~rows:" + name_arg(it, A[1]), T.num(0, "I"))
    if n == "lax":
        it.lax = True
        return None
    return NO


def same(a, b):
    return T.and_(T.not_(a.nan), T.not_(a.und), T.not_(b.nan), T.not_(b.und), T.eq(a.t, b.t))
