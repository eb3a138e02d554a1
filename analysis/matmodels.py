"""Transfer functions for ndarray matrices.

NatV("Mat", rows of elements) owns its elements; NatV("Grid", (rows of references, dimensions)) is a view, and so is
NatV("MatSlice", (matrix, slice info))."""
import dom
import models as M
from dom import lift
from interp import Agg, INT_BITS, NatV, Opaque, Panic, Ref, UNIT, Unsupported, VecV, short
from models import NONE, err, fref, ok, some, tup

KINDS = ("Mat", "Grid", "MatSlice")


def grid(I, v):
    """The cells a matrix or view denotes, as rows of references, and its number of dimensions."""
    r = None
    while True:
        if isinstance(v, Ref):
            r, v = v, I.load(v)
        elif isinstance(v, NatV) and v.kind in ("Box", "Rc", "RefMut", "RefG"):
            v = M.nat_deref(I, v)
        else:
            break
    if not isinstance(v, NatV):
        raise Unsupported("matrix %s" % short(v))
    if v.kind == "Mat":
        r = I.mkref(v) if r is None else r
        return [[Ref(r.obj, r.path + (("e", i, j),)) for j in range(len(x))] for i, x in enumerate(v.d)], 2
    if v.kind == "Grid":
        return v.d
    if v.kind == "MatSlice":
        return sliced(I, v)
    raise Unsupported("matrix %s" % short(v))


def sliced(I, v):
    g, _ = grid(I, v.d[0])
    info = v.d[1]
    while isinstance(info, Agg) and not (info.ty is not None and info.ty.k == "array"):
        c = [x for x in info.f if isinstance(x, (Agg, VecV))]
        if not c:
            break
        info = c[0]
    if not isinstance(info, VecV) or len(info.items) != 2:
        raise Unsupported("slice info %s" % short(info))
    sel, nd = [], 2
    for x, n in zip(info.items, (len(g), len(g[0]) if g else 0)):
        x = I.deref(x)
        if isinstance(x, NatV) and x.kind == "SliceElem":
            lo, hi = x.d, n
        elif isinstance(x, Agg) and x.var == 0:
            lo, hi, st = I.concrete(x.f[0]), x.f[1], I.concrete(x.f[2])
            hi = n if not hi.f else I.concrete(hi.f[0])
            lo, hi = (lo + n if lo < 0 else lo), (hi + n if hi < 0 else hi)
            if st != 1:
                raise Unsupported("matrix slice with a step")
        elif isinstance(x, Agg) and x.var == 1:
            lo = I.concrete(x.f[0])
            lo = lo + n if lo < 0 else lo
            hi, nd = lo + 1, nd - 1
        else:
            raise Unsupported("slice element %s" % short(x))
        if lo > n or hi > n or lo > hi:
            raise Panic("ndarray: slice out of bounds")
        sel.append((lo, hi))
    rows = [r[sel[1][0]:sel[1][1]] for r in g[sel[0][0]:sel[0][1]]]
    if nd == 1 and len(rows) != 1:
        rows = [[r[0] for r in rows]]
    return rows, nd


def view(rows, nd=2):
    return NatV("Grid", (rows, nd))


def shape_of(I, v):
    v = I.deref(v)
    if isinstance(v, (Agg, VecV)):
        return [I.concrete(x) for x in (v.f if isinstance(v, Agg) else v.items)]
    return [1, I.concrete(v)]


def listed(xs):
    xs = tuple(xs)
    return M.It("list", xs, 0, len(xs))


def element_type(info):
    t = info.dest_ty
    while t is not None and t.path is not None and t.path.startswith("core::result"):
        t = t.args[0]
    if t is not None and t.args:
        e = t.args[0]
        if e.path is not None and e.path.startswith("ndarray::") and e.args:
            e = e.args[0]
        return e
    return None


def build(I, name, a, info):
    h, w = shape_of(I, a[0])
    if name == "from_shape_fn":
        one = not isinstance(I.deref(a[0]), (Agg, VecV))
        f = fref(I, a[1])
        return NatV("Mat", tuple(tuple(I.call_callable(f, [j if one else tup(i, j)]) for j in range(w)) for i in range(h)))
    if name == "from_shape_vec":
        xs = a[1].items
        if len(xs) != h * w:
            return err(Opaque(("ShapeError",)))
        return ok(NatV("Mat", tuple(tuple(xs[i * w:i * w + w]) for i in range(h))))
    e = element_type(info)
    if name == "from_elem":
        x = a[1]
    elif e is not None and e.path == "num_complex::Complex":
        x = M.cplx(dom.ONE if name == "ones" else dom.ZERO, dom.ZERO)
    elif e is not None and e.k == "float":
        x = lift(int(name == "ones"), True)
    elif e is not None and e.s in INT_BITS:
        x = int(name == "ones")
    else:
        raise Unsupported("matrix of an unknown element type")
    return NatV("Mat", ((x,) * w,) * h)


def gridm(I, name, a, info):
    if name in ("from_shape_fn", "zeros", "ones", "from_elem", "default", "from_shape_vec"):
        return build(I, name, a, info)
    if name == "eye":
        e = element_type(info)
        if e is not None and e.k == "float":
            n = I.concrete(a[0])
            return NatV("Mat", tuple(tuple(lift(int(i == j), True) for j in range(n)) for i in range(n)))
        return NotImplemented
    if name == "arr2":
        return NatV("Mat", tuple(tuple(I.slice_items(x)) for x in I.slice_items(a[0])))
    if name == "arr1":
        return NatV("Mat", (tuple(I.slice_items(a[0])),))
    if name == "kron":
        x, y = [[[I.load(e) for e in r] for r in grid(I, m)[0]] for m in a]
        return NatV("Mat", tuple(tuple(M.arith(I, "mul", p, q) for p in r for q in t) for r in x for t in y))
    if not a:
        return NotImplemented
    u = I.deref(a[0])
    if not (isinstance(u, NatV) and u.kind in KINDS):
        return NotImplemented
    if name in ("nrows", "ncols", "clone", "deref", "deref_mut", "slice_mut") and u.kind == "Mat":
        return NotImplemented
    if name in ("deref", "deref_mut"):
        return a[0]
    g, nd = grid(I, a[0])
    w = len(g[0]) if g else 0
    if name == "nrows":
        return len(g)
    if name == "ncols":
        return w
    if name == "len":
        return len(g) * w
    if name == "len_of":
        return (len(g), w)[I.concrete(I.deref(a[1]).f[0])]
    if name == "is_empty":
        return len(g) * w == 0
    if name == "is_square":
        return len(g) == w
    if name == "dim":
        return tup(len(g), w) if nd == 2 else w
    if name == "shape":
        return I.mkref(VecV([len(g), w] if nd == 2 else [w]))
    if name in ("slice", "slice_mut", "slice_move"):
        return NatV("MatSlice", (a[0], I.deref(a[1])))
    if name in ("row", "row_mut", "column", "column_mut"):
        k = I.concrete(a[1])
        if k >= (len(g) if name.startswith("row") else w):
            raise Panic("ndarray: index out of bounds")
        return view([g[k]], 1) if name.startswith("row") else view([[r[k] for r in g]], 1)
    if name in ("index_axis", "index_axis_mut"):
        k = I.concrete(a[2])
        return view([g[k]], 1) if I.concrete(I.deref(a[1]).f[0]) == 0 else view([[r[k] for r in g]], 1)
    if name in ("diag", "diag_mut"):
        return view([[g[i][i] for i in range(min(len(g), w))]], 1)
    if name in ("t", "reversed_axes"):
        return view([[r[j] for r in g] for j in range(w)] if nd == 2 else g, nd)
    if name in ("view", "view_mut"):
        return view(g, nd)
    if name in ("rows", "rows_mut", "outer_iter", "outer_iter_mut", "genrows"):
        return listed(view([r], 1) for r in g) if nd == 2 else listed(g[0])
    if name in ("columns", "columns_mut"):
        return listed(view([[r[j] for r in g]], 1) for j in range(w))
    if name in ("iter", "iter_mut"):
        return listed(x for r in g for x in r)
    if name in ("indexed_iter", "indexed_iter_mut"):
        return listed(tup(tup(i, j) if nd == 2 else j, x) for i, r in enumerate(g) for j, x in enumerate(r))
    if name in ("get", "get_mut", "uget", "uget_mut"):
        i, j = index_of(I, a[1])
        if i >= len(g) or j >= w:
            return NONE
        return some(g[i][j]) if name.startswith("get") else g[i][j]
    if name in ("to_owned", "into_owned", "to_vec"):
        xs = tuple(tuple(I.load(x) for x in r) for r in g)
        return VecV(xs[0]) if name == "to_vec" else NatV("Mat", xs)
    if name in ("mapv", "map", "mapv_into", "mapv_inplace", "map_inplace"):
        f = fref(I, a[1])
        if name.endswith("inplace"):
            for r in g:
                for x in r:
                    if name == "mapv_inplace":
                        I.store(x, I.call_callable(f, [I.load(x)]))
                    else:
                        I.call_callable(f, [x])
            return UNIT
        return NatV("Mat", tuple(tuple(I.call_callable(f, [x if name == "map" else I.load(x)]) for x in r) for r in g))
    if name in ("sum", "product"):
        acc = None
        for r in g:
            for x in r:
                acc = I.load(x) if acc is None else M.arith(I, "add" if name == "sum" else "mul", acc, I.load(x))
        if acc is None:
            raise Unsupported("fold of an empty matrix")
        return acc
    if name == "dot":
        h, nd2 = grid(I, a[1])
        if nd != 2 or nd2 != 2:
            raise Unsupported("product of vectors")
        if w != len(h):
            raise Panic("ndarray: incompatible shapes")

        def cell(r, j):
            acc = None
            for k in range(w):
                t = M.arith(I, "mul", I.load(r[k]), I.load(h[k][j]))
                acc = t if acc is None else M.arith(I, "add", acc, t)
            return acc
        return NatV("Mat", tuple(tuple(cell(r, j) for j in range(len(h[0]))) for r in g))
    if name == "fill":
        for r in g:
            for x in r:
                I.store(x, a[1])
        return UNIT
    if name == "swap":
        x, y = [g[p[0]][p[1]] for p in (index_of(I, a[1]), index_of(I, a[2]))]
        p, q = I.load(x), I.load(y)
        I.store(x, q)
        I.store(y, p)
        return UNIT
    if name == "assign":
        h, _ = grid(I, a[1])
        if len(h) != len(g) or (g and len(h[0]) != w):
            raise Panic("ndarray: could not broadcast array")
        vals = [[I.load(x) for x in r] for r in h]
        for r, s in zip(g, vals):
            for x, y in zip(r, s):
                I.store(x, y)
        return UNIT
    return NotImplemented


def index_of(I, v):
    v = I.deref(v)
    ij = [I.concrete(x) for x in (v.f if isinstance(v, Agg) else v.items if isinstance(v, VecV) else (v,))]
    return [0] * (2 - len(ij)) + ij


def matrix_op(I, op, a, b):
    """Element-wise operators on matrices."""
    def cells(v):
        u = I.deref(v)
        if isinstance(u, NatV) and u.kind in KINDS:
            return [[I.load(x) for x in r] for r in grid(I, v)[0]]
        return u
    x, y = cells(a), cells(b)
    if isinstance(x, list) and isinstance(y, list) and (len(x) != len(y) or x and len(x[0]) != len(y[0])):
        raise Unsupported("broadcasting")
    m = x if isinstance(x, list) else y
    return NatV("Mat", tuple(tuple(M.arith(I, op, x[i][j] if isinstance(x, list) else x, y[i][j] if isinstance(y, list) else y) for j in range(len(r))) for i, r in enumerate(m)))
