"""Trusted models of deal.II's finite element classes as the assembly of a
cell uses them.  Shape functions, geometry and quadrature are arbitrary
functions of the cell (or face) they are evaluated on; the number of faces,
quadrature points and degrees of freedom is arbitrary."""
import terms as T
import prover
from values import *

HP = ("dealii::hp::FEValues", "dealii::hp::FEFaceValues")
VIEW = "dealii::FEValuesViews::"
TIME = Loc(("last function whose time was set",))
NOTE = "finite element spaces, mappings and quadratures are arbitrary functions of cell, face, point and degree of freedom"


def O(name, *args):
    return T.sym(name, "O", tuple(args))


def cell_of(v):
    return v


def face(it, cell, i):
    return O("face", cell, i)


def facts(a):
    """a cell with a face at the boundary is at the boundary; one with a face
    at a cell of another crystal is marked as being at a grain boundary"""
    k = a[0]
    if k.op != "sym" or k.val != "face":
        return []
    c, i = k.args
    b = T.sym("at_boundary", "B", (k,))
    return [T.or_(T.not_(b), T.sym("cell_at_boundary", "B", (c,)))]


def grain(a):
    """axiom of the identifier of a neighbour"""
    k = a[0]
    if k.op != "sym" or k.val != "neighbor":
        return []
    c, i = k.args
    return [T.or_(T.sym("marked", "B", (c,)), T.sym("at_boundary", "B", (face(None, c, i),)),
                  T.eq(T.sym("material_id", "I", (k,)), T.sym("material_id", "I", (c,))))]


def n_faces(it):
    n = T.sym("n_faces", "I")
    it.nonneg(n)
    return n


def points(it, v):
    return v.f["n"]


def material(it, key):
    prover.always("material_id", "grain", grain)
    m = T.sym("material_id", "I", (key,))
    it.nonneg(m)
    n = T.sym("n_crystals", "I")
    prover.always("material_id", "range", lambda a: [T.lt(T.sym("material_id", "I", a), n)])
    it.assumed.add("material identifiers and active finite elements of cells are crystals")
    return m


def construct(it, e, f, rec):
    n = rec["name"]
    if n in HP:
        a = [it.rv(x) for x in e["args"]]
        if len(a) >= 3 and all(isinstance(x, Opq) for x in a[:3]):
            it.assumed.add(NOTE)
            q = T.sym("QCollection::max_n_quadrature_points", "I", (a[2].key,))
            it.nonneg(q)
            key = O("hp", a[0].key, a[1].key, a[2].key)
            it.n_points = dict(getattr(it, "n_points", {}), **{n: q})
            return Opq(key, n, {"base": key, "n": q})
        if len(a) >= 2 and isinstance(a[1], Opq):
            it.assumed.add(NOTE)
            q = T.sym("QCollection::max_n_quadrature_points", "I", (a[1].key,))
            it.nonneg(q)
            key = O("hp", a[0].key, a[1].key)
            return Opq(key, n, {"base": key, "n": q})
        if len(a) == 1:
            return a[0]
    if n in ("dealii::TriaIterator", "dealii::TriaActiveIterator", "dealii::TriaRawIterator"):
        a = [it.rv(x) for x in e["args"]]
        if len(a) == 1 and isinstance(a[0], Opq):
            return a[0]
    return None


def out_vector(it, a, n, fn, e):
    """writes the n values fn(q) into the vector a"""
    l = it.lv(a)
    v = it.load(l)
    it.add_obl("the output vector has the size of the quadrature", T.eq(v.n, n), it.where(e))
    it.store(l, Arr(v.n, fn, kind=v.kind))


def vector_terms(v):
    from linalg import terms_of
    return tuple(terms_of(v))


def mcall(it, e, f, rec, o, m, A):
    from models import NO, I
    n = rec["name"]
    if n.startswith("std::_Rb_tree") and m in ("operator->", "operator*"):
        v = it.val(o)
        if not isinstance(v, Opq) or v.cls != "map iterator" or "at" not in v.f:
            return NO
        # what it points to is not written through the iterator: a pointer
        l = it.alloc(Pair([v.f["key"], v.f["at"]()]))
        return l if m == "operator*" else Ptr(l)
    if n.startswith("dealii::Tria") and "Iterator" in n:
        v = it.val(o)
        if m in ("operator->", "operator*") and isinstance(v, Opq):
            t = it.ty(f["ret"])
            return o if isinstance(o, Loc) else it.alloc(v)
        if m in ("operator==", "operator!="):
            q = T.eq(v.key, it.rv(A[0]).key)
            return q if m == "operator==" else T.not_(q)
        if m == "operator=":
            it.store(o, it.rv(A[0]))
            return o
    if n in ("dealii::DoFCellAccessor", "dealii::CellAccessor", "dealii::TriaAccessor", "dealii::DoFAccessor",
             "dealii::TriaAccessorBase"):
        v = it.val(o)
        if not isinstance(v, Opq):
            return NO
        k = v.key
        if m == "get_dof_indices":
            l = it.lv(A[0])
            w = it.load(l)
            it.store(l, Arr(w.n, lambda i: T.sym("dof_index", "I", (k, i)), kind=w.kind))
            return None
        if m in ("material_id", "active_fe_index"):
            return material(it, k)
        if m == "active_cell_index":
            i = T.sym("active_cell_index", "I", (k,))
            it.nonneg(i)
            return i
        if m == "face_indices":
            return Opq(O("faces", k), "iota", {"lo": I(0), "hi": n_faces(it)})
        if m == "n_faces":
            return n_faces(it)
        if m == "face":
            return Opq(face(it, k, it.rv(A[0])), "face")
        if m == "face_iterators":
            return Arr(n_faces(it), lambda i: Opq(face(it, k, i), "face"))
        if m == "neighbor":
            return Opq(O("neighbor", k, it.rv(A[0])), "cell")
        if m in ("neighbor_of_neighbor", "neighbor_face_no"):
            x = T.sym("neighbor_of_neighbor", "I", (k, it.rv(A[0])))
            it.nonneg(x)
            return x
        if m == "at_boundary" and not A:
            if v.cls == "face":
                prover.always("at_boundary", "facts", facts)
                return T.sym("at_boundary", "B", (k,))
            return T.sym("cell_at_boundary", "B", (k,))
        if m == "boundary_id":
            b = T.sym("boundary_id", "I", (k,))
            it.nonneg(b)
            return b
        if m == "id":
            return Opq(O("id", k), "dealii::CellId")
        if m in ("is_locally_owned", "is_active"):
            return T.TRUE
        return NO
    if n in HP and m == "reinit":
        it.assumed.add(NOTE)
        v = it.val(o)
        c = it.rv(A[0])
        if n == HP[0]:
            key = O("in_cell", v.f["base"], c.key)
        else:
            i = it.rv(A[1])
            key = O("on_face", v.f["base"], i.key if isinstance(i, Opq) else face(it, c.key, i))
        it.store(o, Opq(key, v.cls, dict(v.f)))
        return None
    if m == "get_present_fe_values" and isinstance(it.val(o), Opq):
        v = it.val(o)
        return it.alloc(Opq(v.key, "dealii::FEValues", {"n": v.f["n"]}))
    if n.startswith("dealii::FEValues") or n.startswith("dealii::FEFaceValues"):
        v = it.val(o)
        if isinstance(v, Opq) and "n" in v.f:
            k, nq = v.key, v.f["n"]
            if m == "operator[]":
                x = it.rv(A[0])
                return it.alloc(Opq(O("view", k, x.key), "view", {"n": nq}))
            if m in ("get_JxW_values", "get_normal_vectors", "get_quadrature_points"):
                et = it.targ_type(it.p.recs[it.ty(it.strip_ref(f["ret"]))["rec"]], 0)
                return it.alloc(Arr(nq, lambda q: it.mkval(et, m[4:-1], (k, q))))
            if m == "JxW":
                return F(T.sym("JxW_value", "R", (k, it.rv(A[0]))))
            if m in ("normal_vector", "quadrature_point"):
                return it.mkval(f["ret"], m, (k, it.rv(A[0])))
            if v.cls == "view":
                if m.startswith("get_function_"):
                    x = it.rv(A[0])
                    l = it.load(it.lv(A[1]))
                    et = it.targ_type(it.p.recs[it.ty(it.strip_ref(f["params"][1]["t"]))["rec"]], 0)
                    ts = vector_terms(x)
                    nm = m[4:]
                    out_vector(it, A[1], nq, lambda q: it.mkval(et, nm, (k,) + ts + (q,)), e)
                    return None
                return it.mkval(f["ret"], "shape_" + m, tuple([k] + [it.rv(a) for a in A]))
    if n.startswith("dealii::TensorFunction") and m == "value_list":
        v = it.val(o)
        p = it.rv(A[0])
        et = it.targ_type(it.p.recs[it.ty(it.strip_ref(f["params"][1]["t"]))["rec"]], 0)
        last, t = it.load(TIME).v
        if last.key is not v.key:
            it.assumed.add("prescribed functions are distinct objects")
            t = F(T.sym("time_of_function", "R", (v.key,)))
        from models import flatten
        out_vector(it, A[1], p.n, lambda q: it.mkval(
            et, "value_of_function", (v.key, t.t) + tuple(flatten(arr_get(p, q)))), e)
        return None
    if n == "dealii::FunctionTime" and m == "set_time" and TIME.addr in it.heap:
        it.store(TIME, Pair([Opq(it.val(o).key, "function"), it.rv(A[0])]))
        return None
    if n == "dealii::CellDataStorage" and m == "get_data":
        v, c = it.val(o), it.rv(A[0])
        return history(it, f, v.key, (c.key,), it.n_points[HP[0]])
    return NO


def history(it, f, key, args, n):
    """what a data storage has at the n points of (args): histories that have
    been initialized for the slip systems of the crystals"""
    rt = it.p.recs[it.ty(it.strip_ref(f["ret"]))["rec"]]
    pt = it.targ_type(rt, 0)
    pr = it.p.recs[it.ty(pt)["rec"]]
    to = it.targ_type(pr, 0)
    nm = "history#%s" % T.show(key)
    fam = ("fam", nm, it.ty(to)["s"])
    ns = T.sym("n_slips", "I")

    def leaf(a):
        v = it.mkval(to, nm, a)
        g = dict(v.f)
        for x, y in v.f.items():
            if x.startswith("flag_init"):
                g[x] = T.TRUE
            elif isinstance(y, Arr):
                g[x] = Arr(ns, y.fn, y.ups, y.cols, y.kind)
            elif isinstance(y, Pair):
                g[x] = Pair([Arr(ns, z.fn, z.ups, z.cols, z.kind) if isinstance(z, Arr) else z for z in y.v])
        return Struct(v.rec, g)

    def build(a):
        if len(a) == len(args) + 1:
            return leaf(a)
        return Arr(T.sym(nm + ".n"), lambda i, a=a: build(a + (i,)))
    it.assumed.add("quadrature point histories are initialized, with one entry per slip system")
    if fam not in it.heap:
        it.families[fam] = build
        it.heap[fam] = build(())
    return Arr(n, lambda q: Ptr(Loc(fam, tuple(args) + (q,))))


def pair(a, b):
    """the same object for (a, b) and (b, a)"""
    return (a, b) if a.id <= b.id else (b, a)


def intrinsic(it, e, f, n):
    from models import NO, flatten, name_arg
    A = e["args"]
    if n == "a_cell":
        it.heap[TIME.addr] = Pair([Opq(O("nothing"), "function"), FZERO])
        return Opq(O("cell"), "cell")
    if n == "some":
        args = []
        for a in A[1:]:
            args.extend(flatten(it.rv(a)))
        nm = name_arg(it, A[0])
        v = it.mkval(it.strip_ref(f["ret"]), "some." + nm, tuple(args))
        return it.alloc(v) if it.ty(f["ret"])["k"] == "ref" else v
    if n == "marked":
        return T.sym("marked", "B", (it.rv(A[0]).key,))
    if n == "bounded":
        x, b = it.rv(A[0]), it.rv(A[1])
        if x.op == "sym" and not any(y.op == "sym" and y.args for y in T.subterms(b).values()):
            prover.always(x.val, "bounded", lambda a: [T.lt(T.sym(x.val, "I", a), b)])
            return None
        raise Unsupported("bounded")
    if n == "interface_history":
        h, a, b = [it.rv(x) for x in A[:3]]
        return history(it, f, O("interface histories"), pair(a.key, b.key), it.n_points[HP[1]])
    return NO
