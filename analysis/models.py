"""Transfer functions for the library types the analysed crates use: collections, iterators, numbers, cells, strings.

Everything that belongs to the analysed repository is interpreted from its own MIR; only library code is modelled here.
"""
import functools
from fractions import Fraction
import dom
import fp
from dom import Poly, Cond, lift
from interp import Agg, VecV, Ref, NatV, FnItem, StrV, Opaque, UNIT, MOVED, Panic, Unsupported, UB, PathCut, short, INT_BITS, arbitrary_word
from mir import Ty

LOCAL = {"qir_stdlib", "quantum_sparse_sim", "qir_backend", "qir_runner", "runner", "inkwell", "probe", "pyo3", "pipprobe"}


# ---------------------------------------------------------------- synthetic types
def _enum(path, variants):
    t = Ty()
    t.s = t.path = path
    t.k = "enum"
    t.variants = [(n, d, [(str(i), None) for i in range(k)]) for n, d, k in variants]
    return t


OPTION = _enum("core::option::Option", [("None", 0, 0), ("Some", 1, 1)])
RESULT = _enum("core::result::Result", [("Ok", 0, 1), ("Err", 1, 1)])
ORDERING = _enum("core::cmp::Ordering", [("Less", -1, 0), ("Equal", 0, 0), ("Greater", 1, 0)])
CFLOW = _enum("core::ops::control_flow::ControlFlow", [("Continue", 0, 1), ("Break", 1, 1)])
COMPLEX = Ty()
COMPLEX.s, COMPLEX.k, COMPLEX.path = "num_complex::Complex<f64>", "struct", "num_complex::Complex"
COMPLEX.variants = [("Complex", 0, [("re", None), ("im", None)])]
NONE = Agg(OPTION, 0, ())
LESS, EQUAL, GREATER = Agg(ORDERING, 0, ()), Agg(ORDERING, 1, ()), Agg(ORDERING, 2, ())


def some(v):
    return Agg(OPTION, 1, (v,))


def ok(v):
    return Agg(RESULT, 0, (v,))


def err(v):
    return Agg(RESULT, 1, (v,))


def opt(v):
    return NONE if v is None else some(v)


def tup(*a):
    return Agg(None, 0, a)


def cplx(re, im):
    return Agg(COMPLEX, 0, (re, im))


def is_complex(v):
    return isinstance(v, Agg) and v.ty is not None and v.ty.path == "num_complex::Complex"


def is_path(v, p):
    return isinstance(v, Agg) and v.ty is not None and v.ty.path == p


def ordering(I, c):
    return (LESS, EQUAL, GREATER)[c + 1]


# ---------------------------------------------------------------- hooks used by interp
def nat_sub(I, v, p):
    if v.kind in ("Cell", "RefCell", "Once", "Mutex") and p == "v":
        return v.d[1] if v.kind == "RefCell" else v.d
    if v.kind == "Map":
        if isinstance(p, tuple) and p[0] == "k":
            for k, x in v.d:
                if k == p[1]:
                    return x
    if v.kind == "Bits" and isinstance(p, int) and p < len(v.d):
        return v.d[p]
    if v.kind == "Mat" and isinstance(p, tuple) and p[0] == "e":
        return v.d[p[1]][p[2]]
    if v.kind == "Mat" and isinstance(p, tuple) and p[0] == "row":
        return VecV(v.d[p[1]])
    if v.kind in ("Box", "Rc") and p == 0:
        return v
    if v.kind == "Buf":
        return I.sub(I.get_obj(v.d), p)
    return None


def nat_upd(I, v, p, fn):
    if v.kind in ("Cell", "Once", "Mutex") and p == "v":
        return NatV(v.kind, fn(v.d))
    if v.kind == "RefCell" and p == "v":
        return NatV("RefCell", (v.d[0], fn(v.d[1])))
    if v.kind == "Map" and isinstance(p, tuple) and p[0] == "k":
        return NatV("Map", tuple((k, fn(x) if k == p[1] else x) for k, x in v.d))
    if v.kind == "Bits" and isinstance(p, int) and p < len(v.d):
        d = list(v.d)
        d[p] = fn(d[p])
        return NatV("Bits", tuple(d))
    if v.kind == "Mat" and isinstance(p, tuple) and p[0] == "e":
        rows = [list(r) for r in v.d]
        rows[p[1]][p[2]] = fn(rows[p[1]][p[2]])
        return NatV("Mat", tuple(map(tuple, rows)))
    return None


def bytes_get(I, v, i, ty):
    """The value of type ty stored at byte i of a buffer (ty None: the raw byte)."""
    items = I.slice_items(v)
    if ty is None or ty.size == 1 and ty.k == "int" and ty.s == "u8":
        if not 0 <= i < len(items):
            raise UB("read at byte %d of a buffer of %d bytes" % (i, len(items)))
        return items[i]
    n = ty.size
    if not (isinstance(i, int) and n is not None):
        raise Unsupported("read of %s at byte %s" % (ty.s, i))
    if i < 0 or i + n > len(items):
        raise UB("read of bytes %d..%d of a buffer of %d bytes" % (i, i + n, len(items)))
    b = items[i:i + n]
    x = b[0] if b else None
    if n and isinstance(x, NatV) and x.kind == "B" and x.d[1] == n and all(
            isinstance(y, NatV) and y.kind == "B" and y.d == (x.d[0], n, k) for k, y in enumerate(b)):
        return x.d[0]
    if n and ty.k in ("int", "ptr", "ref", "fnptr", "float", "bool") and all(isinstance(y, int) for y in b):
        w = sum((y & 255) << (8 * k) for k, y in enumerate(b))
        if ty.k == "int":
            return I.wrap(w, ty)
        if ty.k == "bool":
            return w != 0
        if ty.k == "float":
            import struct
            return dom.fconst(struct.unpack("<d", struct.pack("<Q", w))[0])
        return w
    if ty.k in ("struct", "tuple") and ty.off is not None:
        fs = ty.fields if ty.k == "tuple" else [f for _, f in ty.variants[0][2]]
        vals = [bytes_get(I, v, i + o, f) for o, f in zip(ty.off, fs)]
        return Agg(None if ty.k == "tuple" else ty, 0, vals)
    if ty.k == "enum" and ty.variants and all(not f for _, _, f in ty.variants) and all(isinstance(y, int) for y in b):
        w = sum((y & 255) << (8 * k) for k, y in enumerate(b))
        for k, (nm, d, _) in enumerate(ty.variants):
            if (d & ((1 << (8 * n)) - 1)) == w:
                return Agg(ty, k, ())
        raise UB("%d is not a value of %s" % (w, ty.s))
    if ty.path == "core::option::Option" and n == 8 and ty.args and (ty.args[0].k in ("fnptr", "ref") or ty.args[0].path in (
            "core::ptr::non_null::NonNull", "alloc::boxed::Box")) and all(isinstance(y, int) for y in b):
        w = sum((y & 255) << (8 * k) for k, y in enumerate(b))
        return Agg(ty, 1, (w,)) if w else Agg(ty, 0, ())
    if n == 1 and ty.k == "int":
        return x
    raise Unsupported("bytes of %s read as %s" % (short(x), ty.s))


def bytes_put(I, v, i, ty, new):
    items = list(I.slice_items(v))
    n = 1 if ty is None else ty.size
    if n is None or not isinstance(i, int):
        raise Unsupported("write of %s at byte %s" % (ty.s if ty else "u8", i))
    if i < 0 or i + n > len(items):
        raise UB("write of bytes %d..%d of a buffer of %d bytes" % (i, i + n, len(items)))
    if ty is not None and ty.k in ("struct", "tuple") and ty.off is not None and isinstance(new, Agg):
        fs = ty.fields if ty.k == "tuple" else [f for _, f in ty.variants[0][2]]
        out = VecV(items)
        for o, f, x in zip(ty.off, fs, new.f):
            out = bytes_put(I, out, i + o, f, x)
        return out
    if isinstance(new, Poly) and not new.flt and new.is_const():
        new = new.const()
    if ty is not None and ty.k == "enum" and isinstance(new, Agg) and new.ty is not None and new.ty.variants and not new.f:
        new = new.ty.variants[new.var][1]
    if isinstance(new, Poly) and new.flt and new.is_const() and new.const() == 0:
        new = 0
    if isinstance(new, (bool, int)):
        w = int(new) & ((1 << (8 * n)) - 1)
        items[i:i + n] = [(w >> (8 * k)) & 255 for k in range(n)]
    elif n == 1:
        items[i] = new
    else:
        items[i:i + n] = [NatV("B", (new, n, k)) for k in range(n)]
    return VecV(items)


def promote(I, r):
    """Give a vector's contents an identity of their own, so that pointers into it survive moves of the vector."""
    while True:
        v = I.load(r)
        if isinstance(v, Ref):
            if v.rng is not None:
                return None
            r = v
            continue
        if isinstance(v, NatV) and v.kind == "Buf":
            return v.d
        if isinstance(v, NatV):
            d = nat_deref(I, v)
            if isinstance(d, Ref):
                r = d
                continue
        if isinstance(v, VecV):
            o = I.alloc(v, "buf")
            I.store(r, NatV("Buf", o))
            return o
        return None


def nat_len(I, v):
    if v.kind == "Buf":
        return len(I.get_obj(v.d).items)
    if v.kind in ("Bits", "Map", "Set"):
        return len(v.d)
    if v.kind == "SymVec":
        return v.d[0]
    return None


def nat_deref(I, v):
    if v.kind in ("RefMut", "RefG"):
        return v.d
    if v.kind == "Rc":
        return rc_value_ref(I, v)
    if v.kind in ("Box", "Buf", "CStr"):
        return Ref(v.d)
    if v.kind == "Wild":
        raise UB("dereference of an address computed from the null pointer")
    return None


def nat_drop(I, v, ref):
    if v.kind == "CStr":
        I.get_obj(v.d)
        I.freed.add(v.d)
        return
    if v.kind == "Buf":
        x = I.get_obj(v.d)
        I.drop(x, Ref(v.d))
        I.freed.add(v.d)
        return
    if v.kind == "Box":
        x = I.get_obj(v.d)
        I.drop(x, Ref(v.d))
        I.freed.add(v.d)
    elif v.kind in ("RefMut", "RefG"):
        release_guard(I, v)
    elif v.kind == "Rc":
        rc_drop(I, v.d)
    elif v.kind == "Weak":
        weak_drop(I, v.d)
    elif v.kind == "RefCell":
        x = v.d[1]
        if isinstance(x, (Agg, NatV, VecV)):
            I.drop(x, None)
    elif v.kind in ("Map",):
        for k, x in v.d:
            if isinstance(x, (Agg, NatV, VecV)):
                I.drop(x, None)


def call_native(I, fv, args):
    if isinstance(fv, NatV) and fv.kind == "PyFn":
        return fv.d(I, args)
    if isinstance(fv, Opaque):
        h = I.cfg.get("opaque_call")
        if h is not None:
            return h(I, fv, args)
    return NotImplemented


def const_agg(I, c, name):
    if c[1].path == "std::thread::local::LocalKey":
        f = c[3][0]
        while f[0] == "agg":
            f = f[3][0]
        p = f[2] if f[0] in ("fnp", "fn") else str(f)
        if f[0] in ("fnp", "fn") and f[1] is not None:
            for t in f[1].args:
                if t is not None and t.k == "closure" and t.body is not None and t.body.p:
                    p = t.body.p
        p = p.split("::{constant")[0]
        return NatV("Key", p[:-len("::__rust_std_internal_init_fn")] if p.endswith("__rust_std_internal_init_fn") else p)
    if c[1].path in ("num_bigint::biguint::BigUint", "num_bigint::bigint::BigInt") and last_number(c) == 0:
        return 0
    return None


def last_number(c):
    """The last integer in a constant: the length of a vector constant."""
    if c[0] == "agg":
        r = None
        for x in c[3]:
            y = last_number(x)
            r = y if y is not None else r
        return r
    return c[1] if c[0] == "n" else None


def str_index(I, s, i):
    t = s.lit()
    if t is not None and isinstance(i, int):
        return t.encode("utf-8", "surrogateescape")[i]
    raise Unsupported("byte of symbolic text")


def raw_fat(I, ops):
    p, n = ops
    if isinstance(p, Ref) and isinstance(n, int):
        return slice_of(I, p, n)
    return p


def slice_of(I, p, n):
    """A slice of n elements starting at element pointer p."""
    if isinstance(p, Ref) and p.path and isinstance(p.path[-1], int) and isinstance(n, int):
        return Ref(p.obj, p.path[:-1], (p.path[-1], p.path[-1] + n))
    if byte_ptr(p) and isinstance(n, int):
        b = p.path[-1][1]
        tot = I.slice_len(Ref(p.obj, p.path[:-1]))
        if b < 0 or b + n > tot:
            raise UB("slice of bytes %d..%d of a buffer of %s bytes" % (b, b + n, tot))
        return Ref(p.obj, p.path[:-1], (b, b + n))
    if isinstance(p, StrV):
        return p
    if isinstance(n, int) and n == 0:
        return I.mkref(VecV(()))
    if isinstance(p, Ref) and isinstance(n, int) and n == 1:
        return I.mkref(VecV((I.load(p),)))
    raise Unsupported("slice from raw parts %s, %s" % (short(p), short(n)))


def build_adt(I, ty, var, ops):
    return None


def disc(I, v, r, ty):
    if isinstance(v, Opaque) and ty is not None and ty.variants:
        k = I.choose(len(ty.variants), ("variant", v.key))
        val = Agg(ty, k, [Opaque((v.key, ty.variants[k][0], i)) for i in range(len(ty.variants[k][2]))])
        if isinstance(r, Ref):
            I.store(r, val)
        return ty.variants[k][1]
    if ty is not None and ty.path == "core::option::Option" and (isinstance(v, (FnItem, Ref)) or isinstance(v, NatV) and v.kind in ("PyFn", "Box", "Rc")):
        # a pointer read as an optional pointer: null is None
        if isinstance(r, Ref):
            I.store(r, Agg(ty, 1, (v,)))
            return 1
    return None


def sym_binop(I, op, x, y, ty):
    if ty is not None and ty.k == "float":
        if op == "Rem":
            return dom.A("fn", ("frem", x, y))
        return None
    if op == "Rem":
        if y.is_const() and y.const() in (1, -1):
            return lift(0)
        return dom.A("fn", ("irem", x, y), False)
    if op in ("Shl", "Shr"):
        return dom.A("fn", (op.lower(), x, y), False)
    return None


def binop(I, op, a, b, ty, over):
    if op == "Offset" and isinstance(a, Ref):
        return ptr_add(I, a, b, ty.elem.size if ty is not None and ty.elem is not None else None)
    return None


def compare(I, op, a, b, ty):
    if isinstance(a, StrV) and isinstance(b, StrV) and op in ("Eq", "Ne"):
        r = eq_value(I, a, b)
        return r if op == "Eq" else I.bnot(r)
    if is_path(a, "core::cmp::Ordering") and is_path(b, "core::cmp::Ordering"):
        r = a.var == b.var
        return r if op == "Eq" else not r
    null_a = isinstance(a, int) and not isinstance(a, bool)
    null_b = isinstance(b, int) and not isinstance(b, bool)
    if op in ("Eq", "Ne") and ((isinstance(a, Ref) and null_b) or (isinstance(b, Ref) and null_a)):
        return op == "Ne"
    return None


def int_cast(I, v, src, dst):
    """Integer conversion of a symbolic value: exact when the known range fits, otherwise a marked truncation."""
    s = INT_BITS.get(src.s) if src is not None else None
    d = INT_BITS.get(dst.s)
    if s is None or d is None:
        return v
    ss, ds = src.s[0] == "i", dst.s[0] == "i"
    if (d > s and (ds or not ss)) or (d == s and ss == ds) or (ds and ss and d >= s):
        return v
    if I.cfg.get("exact_casts"):
        return v
    hi = (1 << (d - 1)) - 1 if ds else (1 << d) - 1
    lo = -(1 << (d - 1)) if ds else 0
    a, b = I.known(I._simp(Cond("lt0", v - lo))), I.known(I._simp(Cond("lt0", lift(hi) - v)))
    if a is False and b is False:
        return v
    return dom.A("fn", ("cast", v, dst.s), False)


def ptr_cast(I, v, src, dst):
    if isinstance(v, Ref) and v.rng is None and v.path and isinstance(v.path[-1], int) and src is not None and src.elem is not None \
            and src.elem.size == 1 and src.elem.k == "int" and dst is not None and dst.elem is not None and dst.elem.size != 1:
        return Ref(v.obj, v.path[:-1] + (("b", v.path[-1]),))
    return None


def unsize(I, v, src, dst):
    return v


def transmute(I, v, src, dst):
    if dst is not None and dst.k == "int" and isinstance(v, Poly) and v.flt:
        return dom.A("fn", ("bits", v), False)
    if isinstance(v, Agg) and len(v.f) == 1 and dst is not None and dst.k in ("ref", "ptr", "int"):
        return v.f[0]
    return None


def byte_ptr(p):
    return isinstance(p, Ref) and bool(p.path) and isinstance(p.path[-1], tuple) and p.path[-1][0] in ("b", "as")


def copy_nonoverlapping(I, src, dst, n, ty=None):
    n = I.concrete(n, "copy length")
    if byte_ptr(src) or byte_ptr(dst):
        sz = ty.size if ty is not None else None
        if sz is None:
            raise Unsupported("copy of values of unknown size")
        if not (byte_ptr(src) and byte_ptr(dst)):
            for i in range(n):
                poke(I, ptr_add(I, dst, i, sz), peek(I, ptr_add(I, src, i, sz), ty), ty)
            return
        n *= sz
        vals = [I.load(ptr_add(I, src, i, 1)) for i in range(n)]
        for i, x in enumerate(vals):
            I.store(ptr_add(I, dst, i, 1), x)
        return
    vals = [I.load(ptr_add(I, src, i)) for i in range(n)]
    for i, x in enumerate(vals):
        I.store(ptr_add(I, dst, i), x)


def peek(I, p, ty):
    if byte_ptr(p):
        return I.load(Ref(p.obj, p.path[:-1] + (("as", p.path[-1][1], ty),)))
    return I.load(p)


def poke(I, p, v, ty):
    if byte_ptr(p):
        I.store(Ref(p.obj, p.path[:-1] + (("as", p.path[-1][1], ty),)), v)
    else:
        I.store(p, v)


def ptr_add(I, p, n, size=None):
    if isinstance(n, Poly) and n.is_const():
        n = n.const()
    if isinstance(p, Ref) and isinstance(n, int):
        if n == 0:
            return p
        if byte_ptr(p):
            if size is None:
                raise Unsupported("pointer arithmetic on bytes with an unknown element size")
            q = p.path[-1][1] + n * size
            return Ref(p.obj, p.path[:-1] + (("b", q),))
        if p.path and isinstance(p.path[-1], int):
            q = p.path[-1] + n
            if q < 0:
                raise UB("pointer before the start of its allocation")
            return Ref(p.obj, p.path[:-1] + (q,))
    if isinstance(p, Ref) and isinstance(n, Poly):
        return NatV("PtrOff", (p, n))
    if isinstance(p, NatV) and p.kind == "PtrOff" and isinstance(n, (int, Poly)):
        if p.d[2:] and p.d[2] != size:
            raise Unsupported("pointer arithmetic in different units")
        return NatV("PtrOff", (p.d[0], lift(p.d[1]) + lift(n)) + ((size,) if size is not None else p.d[2:]))
    if type(p) is int and p == 0 and isinstance(n, int):
        return NatV("Wild", n) if n else 0
    if isinstance(p, NatV) and p.kind == "Wild" and isinstance(n, int):
        return NatV("Wild", p.d + n) if p.d + n else 0
    raise Unsupported("pointer arithmetic %s + %s" % (short(p), short(n)))


# ---------------------------------------------------------------- equality, order, cloning
def eq_value(I, a, b):
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, (bool, int, Cond, Poly)) and isinstance(b, (bool, int, Cond, Poly)):
        return I.compare("Eq", a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var:
            return False
        r = True
        for x, y in zip(a.f, b.f):
            r = I.boolop("BitAnd", r, eq_value(I, x, y)) if r is not True else eq_value(I, x, y)
            if r is False:
                return False
        return r
    if isinstance(a, (VecV, StrV)) and isinstance(b, (VecV, StrV)):
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a == b:
                return True
            if a.lit() is not None and b.lit() is not None:
                return False
            return Cond("atom", ("streq", a, b))
        x, y = I.slice_items(a), I.slice_items(b)
        if len(x) != len(y):
            return False
        r = True
        for p, q in zip(x, y):
            e = eq_value(I, p, q)
            if e is False:
                return False
            r = e if r is True else I.boolop("BitAnd", r, e)
        return r
    if isinstance(a, NatV) and a.kind == "CStr":
        a = I.get_obj(a.d)
        return eq_value(I, a, I.get_obj(b.d) if isinstance(b, NatV) and b.kind == "CStr" else b)
    if isinstance(b, NatV) and b.kind == "CStr":
        return eq_value(I, a, I.get_obj(b.d))
    if isinstance(a, NatV) and isinstance(b, NatV) and a.kind == b.kind:
        if a.kind in ("Box", "Rc"):
            return eq_value(I, nat_deref(I, a), nat_deref(I, b))
        if a.kind == "Map":
            return dict(a.d) == dict(b.d)
        if a.kind == "Set":
            return set(a.d) == set(b.d)
        return a == b
    if isinstance(a, FnItem) and isinstance(b, FnItem):
        return a.path == b.path
    if a == b:
        return True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Cond("atom", ("eq", a, b))
    raise Unsupported("equality of %s and %s" % (short(a), short(b)))


def cmp_value(I, a, b):
    """-1, 0 or 1 (forks when undetermined)."""
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, (bool, int, Poly)) and isinstance(b, (bool, int, Poly)):
        if I.truth(I.compare("Lt", a, b)):
            return -1
        if I.truth(I.compare("Gt", a, b)):
            return 1
        if I.known(I.compare("Eq", a, b)) is False:
            raise PathCut("infeasible")
        return 0
    if isinstance(a, (float, int, Poly)) and isinstance(b, (float, int, Poly)):
        for op, r in (("Lt", -1), ("Gt", 1), ("Eq", 0)):
            if I.truth(I.compare(op, a, b)):
                return r
        raise Unsupported("order of incomparable values")
    if isinstance(a, Agg) and isinstance(b, Agg):
        if is_path(a, "core::cmp::Reverse"):
            return -cmp_value(I, a.f[0], b.f[0])
        if a.ty is not None and a.ty.path and a.ty.path.split("::")[0] in LOCAL:
            f = find_impl(I, a, "core::cmp::Ord", "cmp")
            if f is not None:
                return stdmodels.order_of(I.call_fn(f, [I.mkref(a), I.mkref(b)]))
            f = find_impl(I, a, "core::cmp::PartialOrd", "partial_cmp")
            if f is not None:
                r = I.call_fn(f, [I.mkref(a), I.mkref(b)])
                if r.var != 1:
                    raise Unsupported("order of incomparable values")
                return stdmodels.order_of(r.f[0])
        if a.var != b.var:
            return -1 if a.var < b.var else 1
        for x, y in zip(a.f, b.f):
            c = cmp_value(I, x, y)
            if c:
                return c
        return 0
    if isinstance(a, (VecV,)) and isinstance(b, (VecV,)):
        for x, y in zip(a.items, b.items):
            c = cmp_value(I, x, y)
            if c:
                return c
        return (len(a.items) > len(b.items)) - (len(a.items) < len(b.items))
    if isinstance(a, StrV) and isinstance(b, StrV) and a.lit() is not None and b.lit() is not None:
        return (a.lit() > b.lit()) - (a.lit() < b.lit())
    raise Unsupported("order of %s and %s" % (short(a), short(b)))


def clone_value(I, v):
    if isinstance(v, NatV):
        if v.kind == "Rc":
            rc_inc(I, v.d)
            return v
        if v.kind == "Box":
            return NatV("Box", I.alloc(clone_value(I, I.get_obj(v.d))))
        if v.kind == "Weak":
            weak_inc(I, v.d)
            return v
        if v.kind == "RefCell":
            if v.d[0] < 0:
                raise Panic("RefCell already mutably borrowed")
            return NatV("RefCell", (0, clone_value(I, v.d[1])))
        if v.kind == "It":
            return it_clone(I, v)
        if v.kind == "Buf":
            return clone_value(I, I.get_obj(v.d))
        if v.kind == "CStr":
            return NatV("CStr", I.alloc(I.get_obj(v.d), "cs"))
        return v
    if isinstance(v, VecV):
        if any(isinstance(x, (NatV, Agg, VecV)) for x in v.items):
            return VecV([clone_value(I, x) for x in v.items])
        return v
    if isinstance(v, Agg):
        if v.ty is not None and v.ty.path and v.ty.path.split("::")[0] in LOCAL and v.ty.k != "closure":
            f = find_impl(I, v, "core::clone::Clone", "clone")
            if f is not None:
                return I.call_fn(f, [I.mkref(v)])
        if any(isinstance(x, (NatV, Agg, VecV)) for x in v.f):
            return Agg(v.ty, v.var, [clone_value(I, x) for x in v.f])
    return v


def find_impl(I, v, trait, name):
    key = "<%s as %s>::%s" % (v.ty.s, trait, name)
    fs = I.P.by_path.get(key)
    return fs[0] if fs else None


# ---------------------------------------------------------------- Rc
# heap cell of an Rc: Agg(None, 0, (strong, weak, value)); the implicit weak reference of the strong ones is not counted
def rc_new(I, v):
    return NatV("Rc", I.alloc(Agg(None, 0, (1, 0, v)), "rc"))


def rc_value_ref(I, rc):
    return Ref(rc.d, (2,))


def rc_cell(I, obj):
    c = I.get_obj(obj)
    if not (isinstance(c, Agg) and c.ty is None and len(c.f) == 3):
        raise UB("reference count operation on a pointer that is not a counted allocation (%s)" % short(c))
    return c


def rc_inc(I, obj):
    c = rc_cell(I, obj)
    if c.f[0] == 0:
        raise UB("strong count increment on a dead value")
    I.heap[obj] = c.with_field(0, I.binop("Add", c.f[0], 1, None))
    I.trace.append(("rc", obj, 1))


def rc_drop(I, obj):
    c = rc_cell(I, obj)
    s = c.f[0]
    if I.truth(I.compare("Le", s, 0)):
        raise UB("strong count below zero")
    s = I.binop("Sub", s, 1, None)
    I.heap[obj] = c.with_field(0, s)
    I.trace.append(("rc", obj, -1))
    if I.truth(I.compare("Eq", s, 0)):
        v = c.f[2]
        I.trace.append(("free", obj))
        I.drop(v, Ref(obj, (2,)))
        c = I.heap[obj]
        I.heap[obj] = Agg(None, 0, (0, c.f[1], MOVED))
        if not I.truth(I.compare("Gt", c.f[1], 0)):
            I.freed.add(obj)


def weak_inc(I, obj):
    c = rc_cell(I, obj)
    I.heap[obj] = c.with_field(1, I.binop("Add", c.f[1], 1, None))
    I.trace.append(("weak", obj, 1))


def weak_drop(I, obj):
    c = rc_cell(I, obj)
    if I.truth(I.compare("Le", c.f[1], 0)):
        raise UB("alias count below zero")
    w = I.binop("Sub", c.f[1], 1, None)
    I.heap[obj] = c.with_field(1, w)
    I.trace.append(("weak", obj, -1))


def rc_of_ptr(I, p):
    if isinstance(p, NatV) and p.kind in ("Rc", "Weak"):
        return p.d
    if isinstance(p, Ref) and p.path == (2,):
        rc_cell(I, p.obj)
        return p.obj
    if isinstance(p, Ref) and not p.path:
        raise UB("pointer %s does not come from a counted allocation" % short(p))
    if isinstance(p, Ref):
        raise UB("pointer %s is not the start of a counted value" % short(p))
    if isinstance(p, int):
        raise UB("counted pointer made from the integer %d" % p)
    if arbitrary_word(p):
        raise UB("counted pointer made from the arbitrary word %s" % short(p))
    raise Unsupported("counted pointer %s" % short(p))


# ---------------------------------------------------------------- cells
def cell_borrow(I, r, mut):
    v = I.load(r)
    if not (isinstance(v, NatV) and v.kind == "RefCell"):
        if isinstance(v, NatV) and v.kind in ("RefMut", "RefG"):
            return cell_borrow(I, v.d, mut)
        raise Unsupported("borrow of %s" % short(v))
    flag = v.d[0]
    I.trace.append(("borrow", r, mut, flag))
    if mut:
        if flag != 0:
            raise Panic("RefCell already %s" % ("mutably borrowed" if flag < 0 else "borrowed"))
        I.store(r, NatV("RefCell", (-1, v.d[1])))
        return NatV("RefMut", Ref(r.obj, r.path + ("v",)))
    if flag < 0:
        raise Panic("RefCell already mutably borrowed")
    I.store(r, NatV("RefCell", (flag + 1, v.d[1])))
    return NatV("RefG", Ref(r.obj, r.path + ("v",)))


def release_guard(I, g):
    p = g.d.path
    if "v" not in p:
        return
    n = len(p) - 1 - p[::-1].index("v")
    r = Ref(g.d.obj, p[:n])
    v = I.load(r)
    if isinstance(v, NatV) and v.kind == "RefCell":
        f = v.d[0]
        I.store(r, NatV("RefCell", (0 if f < 0 else f - 1, v.d[1])))


def cell_check(I, r):
    v = I.load(r)
    if isinstance(v, NatV) and v.kind == "RefCell" and v.d[0] != 0:
        raise Panic("RefCell already borrowed")
    return v


# ---------------------------------------------------------------- iterators
def It(*d):
    return NatV("It", d)


RANGE, RANGEI = "core::ops::range::Range", "core::ops::range::RangeInclusive"
RANGEF = "core::ops::range::RangeFrom"


def slice_ref(I, v):
    """(base ref, lo, hi) of a slice-like value."""
    if isinstance(v, (VecV, StrV)):
        r = I.mkref(VecV(I.slice_items(v)))
        return r, 0, len(I.load(r).items)
    lo, hi = 0, None
    while isinstance(v, Ref):
        if v.rng is not None:
            lo, hi = v.rng
            return Ref(v.obj, v.path), lo, hi
        t = I.load(v)
        if isinstance(t, VecV):
            return v, 0, len(t.items)
        if isinstance(t, (RefT, NatV)) and not isinstance(t, Ref):
            d = nat_deref(I, t)
            if d is not None:
                v = d
                continue
            if t.kind == "Bits":
                return v, 0, len(t.d)
        if isinstance(t, StrV):
            return slice_ref(I, t)
        v = t
    if isinstance(v, VecV):
        return slice_ref(I, v)
    raise Unsupported("slice %s" % short(v))


RefT = Ref


def user_iter(v):
    return isinstance(v, Agg) and v.ty is not None and v.ty.iters and "next" in v.ty.iters


def to_it(I, v, by_ref_ok=True):
    """Turn an iterable value into a native iterator."""
    if isinstance(v, NatV):
        if v.kind == "It":
            return v
        if v.kind == "Escape":
            t = v.d.lit()
            if t is None:
                raise Unsupported("characters of symbolic text")
            xs = tuple(ord(c) for c in escape_default(t))
            return It("list", xs, 0, len(xs))
        if v.kind == "Box":
            return It("boxed", v.d)
        if v.kind == "Map":
            return It("list", tuple(tup(k, x) for k, x in v.d), 0, len(v.d))
        if v.kind == "Set":
            return It("list", tuple(v.d), 0, len(v.d))
        if v.kind in ("Grid", "MatSlice"):
            xs = tuple(x for r in matmodels.grid(I, v)[0] for x in r)
            return It("list", xs, 0, len(xs))
        if v.kind == "Mat":
            return It("list", tuple(x for r in v.d for x in r), 0, sum(map(len, v.d)))
        if v.kind == "Buf":
            v = I.get_obj(v.d)
    if isinstance(v, VecV):
        return It("list", v.items, 0, len(v.items))
    if isinstance(v, Agg) and v.ty is not None:
        p = v.ty.path
        if p == RANGE:
            return It("range", v.f[0], v.f[1])
        if p == RANGEI:
            return It("rangei", v.f[0], v.f[1], v.f[2] if len(v.f) > 2 else False)
        if p == RANGEF:
            return It("rangef", v.f[0])
        if p == "core::option::Option":
            return It("list", v.f, 0, len(v.f))
        if user_iter(v):
            return It("user", I.alloc(v), v.ty)
        if v.ty.iters and "into_iter" in v.ty.iters:
            return to_it(I, I.call_fn(v.ty.iters["into_iter"], [v]))
    if isinstance(v, Ref):
        t = I.load(v) if v.rng is None else None
        if isinstance(t, Ref) and t.rng is None:
            return to_it(I, t)
        if isinstance(t, Ref):
            v, t = t, None
        if isinstance(t, NatV) and t.kind == "It":
            return It("by_ref", v)
        if isinstance(t, NatV) and t.kind == "Map":
            return It("list", tuple(tup(I.mkref(k, "k"), Ref(v.obj, v.path + (("k", k),))) for k, x in t.d), 0, len(t.d))
        if isinstance(t, NatV) and t.kind == "Set":
            return It("list", tuple(I.mkref(k, "k") for k in t.d), 0, len(t.d))
        if isinstance(t, NatV) and t.kind in ("Grid", "MatSlice"):
            return to_it(I, t)
        if isinstance(t, NatV) and t.kind == "Mat":
            return It("list", tuple(Ref(v.obj, v.path + (("e", i, j),)) for i, r in enumerate(t.d) for j in range(len(r))), 0, sum(map(len, t.d)))
        if isinstance(t, NatV) and t.kind in ("RefMut", "RefG"):
            return to_it(I, t.d)
        if isinstance(t, Agg) and t.ty is not None:
            if t.ty.path in (RANGE, RANGEI, RANGEF) or user_iter(t):
                return It("by_ref", v)
            if t.ty.path == "core::option::Option":
                return It("list", tuple(Ref(v.obj, v.path + (i,)) for i in range(len(t.f))), 0, len(t.f))
        b, lo, hi = slice_ref(I, v)
        return It("slice", b, lo, hi)
    if isinstance(v, StrV):
        xs = tuple(text_bytes(v))
        return It("list", xs, 0, len(xs))
    raise Unsupported("iteration over %s" % short(v))


def it_clone(I, it):
    d = it.d
    if d[0] == "user":
        return It("user", I.alloc(clone_value(I, I.get_obj(d[1]))), d[2])
    if d[0] == "by_ref":
        raise Unsupported("clone of a borrowed iterator")
    return NatV("It", tuple(it_clone(I, x) if isinstance(x, NatV) and x.kind == "It" else x for x in d))


END = object()


def it_step(I, it, back=False):
    """(item or END, iterator after)."""
    d = it.d
    t = d[0]
    if t == "slice":
        b, lo, hi = d[1:]
        if lo >= hi:
            return END, it
        i = hi - 1 if back else lo
        return Ref(b.obj, b.path + (i,)), (It("slice", b, lo, hi - 1) if back else It("slice", b, lo + 1, hi))
    if t == "list":
        items, lo, hi = d[1:]
        if lo >= hi:
            return END, it
        return items[hi - 1 if back else lo], (It("list", items, lo, hi - 1) if back else It("list", items, lo + 1, hi))
    if t == "range":
        lo, hi = d[1:]
        if not I.truth(I.compare("Lt", lo, hi)):
            return END, it
        if back:
            h = I.binop("Sub", hi, 1, None)
            return h, It("range", lo, h)
        return lo, It("range", I.binop("Add", lo, 1, None), hi)
    if t == "rangei":
        lo, hi, done = d[1:]
        if done is not False and I.truth(done):
            return END, it
        if not I.truth(I.compare("Le", lo, hi)):
            return END, it
        last = I.truth(I.compare("Eq", lo, hi))
        if back:
            return hi, It("rangei", lo, hi if last else I.binop("Sub", hi, 1, None), last)
        return lo, It("rangei", lo if last else I.binop("Add", lo, 1, None), hi, last)
    if t == "rangef":
        return d[1], It("rangef", I.binop("Add", d[1], 1, None))
    if t == "map":
        x, n = it_step(I, d[1], back)
        if x is END:
            return END, It("map", n, d[2])
        return I.call_callable(d[2], [x]), It("map", n, d[2])
    if t in ("filter", "inspect"):
        n = d[1]
        while True:
            x, n = it_step(I, n, back)
            if x is END:
                return END, It(t, n, d[2])
            r = I.call_callable(d[2], [I.mkref(x)])
            if t == "inspect" or I.truth(r):
                return x, It(t, n, d[2])
    if t == "filter_map":
        n = d[1]
        while True:
            x, n = it_step(I, n, back)
            if x is END:
                return END, It(t, n, d[2])
            r = force_opt(I, I.call_callable(d[2], [x]))
            if r.var == 1:
                return r.f[0], It(t, n, d[2])
    if t == "map_while":
        x, n = it_step(I, d[1])
        if x is END:
            return END, It(t, n, d[2])
        r = force_opt(I, I.call_callable(d[2], [x]))
        return (r.f[0] if r.var == 1 else END), It(t, n, d[2])
    if t == "enumerate":
        if back:
            k = it_count(I, d[1])
            x, n = it_step(I, d[1], True)
            return (END if x is END else tup(d[2] + k - 1, x)), It("enumerate", n, d[2])
        x, n = it_step(I, d[1])
        if x is END:
            return END, It("enumerate", n, d[2])
        return tup(d[2], x), It("enumerate", n, d[2] + 1)
    if t == "rev":
        x, n = it_step(I, d[1], not back)
        return x, It("rev", n)
    if t == "zip":
        if back:
            ka, kb = it_count(I, d[1]), it_count(I, d[2])
            a, b = d[1], d[2]
            while ka > kb:
                _, a = it_step(I, a, True)
                ka -= 1
            while kb > ka:
                _, b = it_step(I, b, True)
                kb -= 1
            x, a = it_step(I, a, True)
            y, b = it_step(I, b, True)
            return (END if x is END else tup(x, y)), It("zip", a, b)
        x, a = it_step(I, d[1])
        if x is END:
            return END, It("zip", a, d[2])
        y, b = it_step(I, d[2])
        return (END if y is END else tup(x, y)), It("zip", a, b)
    if t == "chain":
        order = (1, 2) if not back else (2, 1)
        its = {1: d[1], 2: d[2]}
        for k in order:
            x, its[k] = it_step(I, its[k], back)
            if x is not END:
                return x, It("chain", its[1], its[2])
        return END, It("chain", its[1], its[2])
    if t == "take":
        if d[2] <= 0:
            return END, it
        if back:
            k = it_count(I, d[1])
            n = d[1]
            while k > d[2]:
                _, n = it_step(I, n, True)
                k -= 1
            x, n = it_step(I, n, True)
            return x, It("take", n, min(k, d[2]) - 1)
        x, n = it_step(I, d[1])
        return x, It("take", n, d[2] - 1)
    if t == "skip":
        n = d[1]
        if back:
            if it_count(I, n) <= d[2]:
                return END, it
            x, n = it_step(I, n, True)
            return x, It("skip", n, d[2])
        for _ in range(d[2]):
            x, n = it_step(I, n)
            if x is END:
                return END, It("skip", n, 0)
        x, n = it_step(I, n)
        return x, It("skip", n, 0)
    if t == "take_while":
        if d[3]:
            return END, it
        x, n = it_step(I, d[1])
        if x is END or not I.truth(I.call_callable(d[2], [I.mkref(x)])):
            return END, It(t, n, d[2], True)
        return x, It(t, n, d[2], False)
    if t == "skip_while":
        n = d[1]
        while True:
            x, n = it_step(I, n)
            if x is END or d[3] or not I.truth(I.call_callable(d[2], [I.mkref(x)])):
                return x, It(t, n, d[2], True)
    if t == "step_by":
        inner, step, first = d[1:]
        if back:
            k = it_count(I, inner)
            r = (k - 1) % step if first else k % step
            n = inner
            if k == 0 or (not first and k < step):
                return END, it
            for _ in range(r):
                _, n = it_step(I, n, True)
            x, n = it_step(I, n, True)
            return x, It(t, n, step, first)
        n = inner
        if not first:
            for _ in range(step - 1):
                x, n = it_step(I, n)
                if x is END:
                    return END, It(t, n, step, first)
        x, n = it_step(I, n)
        return x, It(t, n, step, False)
    if t == "cloned":
        x, n = it_step(I, d[1], back)
        return (END if x is END else clone_value(I, I.load(x))), It("cloned", n)
    if t == "peekable":
        if d[2] is not None and not back:
            return (END if d[2] == () else d[2][0]), It(t, d[1], None)
        x, n = it_step(I, d[1], back)
        if x is END and back and d[2]:
            return d[2][0], It(t, n, ())
        return x, It(t, n, d[2] if back else None)
    if t == "flat_map":
        inner, f, cur = d[1:]
        while True:
            if cur is not None:
                x, cur = it_step(I, cur, back)
                if x is not END:
                    return x, It(t, inner, f, cur)
            x, inner = it_step(I, inner, back)
            if x is END:
                return END, It(t, inner, f, None)
            cur = to_it(I, x if f is None else I.call_callable(f, [x]))
    if t == "by_ref":
        v = I.load(d[1])
        x, n = it_step_any(I, v, d[1], back)
        return x, it
    if t == "boxed":
        v = I.get_obj(d[1])
        x, n = it_step_any(I, v, Ref(d[1]), back)
        return x, it
    if t == "user":
        nm = "next_back" if back else "next"
        f = d[2].iters.get(nm)
        if f is None:
            raise Unsupported("iterator %s has no %s" % (d[2].s, nm))
        r = force_opt(I, I.call_fn(f, [Ref(d[1])]))
        return (END if r.var == 0 else r.f[0]), it
    if t == "repeat":
        return clone_value(I, d[1]), it
    if t == "repeat_with" or t == "from_fn":
        r = I.call_callable(d[1], [])
        if t == "from_fn":
            r = force_opt(I, r)
            return (END if r.var == 0 else r.f[0]), it
        return r, it
    if t == "successors":
        if d[1] is None:
            return END, it
        r = force_opt(I, I.call_callable(d[2], [I.mkref(d[1])]))
        return d[1], It(t, r.f[0] if r.var == 1 else None, d[2])
    if t == "windows":
        b, lo, hi, k = d[1:]
        if hi - lo < k:
            return END, it
        if back:
            return Ref(b.obj, b.path, (hi - k, hi)), It(t, b, lo, hi - 1, k)
        return Ref(b.obj, b.path, (lo, lo + k)), It(t, b, lo + 1, hi, k)
    if t in ("chunks", "chunks_exact"):
        b, lo, hi, k = d[1:]
        if lo >= hi or (t == "chunks_exact" and hi - lo < k):
            return END, it
        if back:
            if t == "chunks_exact":
                hi = lo + (hi - lo) // k * k
            s = lo + (hi - lo - 1) // k * k
            return Ref(b.obj, b.path, (s, hi)), It(t, b, lo, s, k)
        e = min(lo + k, hi)
        return Ref(b.obj, b.path, (lo, e)), It(t, b, e, hi, k)
    if t == "cycle":
        if not d[1]:
            return END, it
        return clone_value(I, d[1][d[2]]), It(t, d[1], (d[2] + 1) % len(d[1]))
    if back and t in ("scan", "map_while", "take_while", "skip_while"):
        raise Unsupported("%s from the back" % t)
    if t == "scan":
        x, n = it_step(I, d[1])
        if x is END:
            return END, It(t, n, d[2], d[3])
        r = force_opt(I, I.call_callable(d[3], [Ref(d[2]), x]))
        return (r.f[0] if r.var == 1 else END), It(t, n, d[2], d[3])
    raise Unsupported("iterator kind %s" % t)


def force_opt(I, v):
    if isinstance(v, Agg):
        return v
    raise Unsupported("optional value %s" % short(v))


def it_step_any(I, v, ref, back=False):
    """Advance the iterator stored at ref."""
    if isinstance(v, NatV) and v.kind == "It":
        x, n = it_step(I, v, back)
        I.store(ref, n)
        return x, n
    if isinstance(v, NatV) and v.kind == "Box":
        return it_step_any(I, I.get_obj(v.d), Ref(v.d), back)
    if isinstance(v, Ref):
        return it_step_any(I, I.load(v), v, back)
    if isinstance(v, Agg) and v.ty is not None:
        if v.ty.path in (RANGE, RANGEI, RANGEF):
            x, n = it_step(I, to_it(I, v), back)
            dd = n.d
            if v.ty.path == RANGE:
                I.store(ref, Agg(v.ty, 0, (dd[1], dd[2])))
            elif v.ty.path == RANGEI:
                I.store(ref, Agg(v.ty, 0, (dd[1], dd[2], dd[3])))
            else:
                I.store(ref, Agg(v.ty, 0, (dd[1],)))
            return x, None
        if user_iter(v):
            f = v.ty.iters.get("next_back" if back else "next")
            if f is None:
                raise Unsupported("iterator %s cannot step" % v.ty.s)
            r = force_opt(I, I.call_fn(f, [ref]))
            return (END if r.var == 0 else r.f[0]), None
    raise Unsupported("stepping %s" % short(v))


def it_all(I, it, limit=600):
    out = []
    while True:
        x, it = it_step(I, it)
        if x is END:
            return out
        out.append(x)
        if len(out) > limit:
            raise PathCut("iteration bound")


def it_count(I, it):
    """Number of remaining items, without side effects where possible."""
    d = it.d
    if d[0] in ("slice", "list"):
        return max(0, d[3] - d[2])
    if d[0] == "range":
        n = I.binop("Sub", d[2], d[1], None)
        return max(0, I.concrete(n, "range length"))
    if d[0] == "rangei":
        if I.truth(d[3]):
            return 0
        return max(0, I.concrete(I.binop("Sub", d[2], d[1], None), "range length") + 1)
    if d[0] in ("map", "enumerate", "rev", "cloned", "inspect"):
        return it_count(I, d[1])
    if d[0] == "zip":
        return min(it_count(I, d[1]), it_count(I, d[2]))
    if d[0] == "chain":
        return it_count(I, d[1]) + it_count(I, d[2])
    if d[0] == "take":
        return min(d[2], it_count(I, d[1]))
    if d[0] == "skip":
        return max(0, it_count(I, d[1]) - d[2])
    if d[0] == "step_by":
        k = it_count(I, d[1])
        return (k + d[2] - 1) // d[2] if d[3] else k // d[2]
    if d[0] == "by_ref":
        return it_count(I, to_it_owned(I, I.load(d[1])))
    if d[0] == "windows":
        return max(0, d[3] - d[2] - d[4] + 1)
    if d[0] == "chunks":
        return -(-(d[3] - d[2]) // d[4])
    if d[0] == "chunks_exact":
        return (d[3] - d[2]) // d[4]
    if d[0] == "peekable":
        return it_count(I, d[1]) + (1 if d[2] else 0) if d[2] != () else 0
    if d[0] == "flat_map" and d[2] is None and d[1].d[0] in ("slice", "list"):
        return sum(it_count(I, to_it(I, x)) for x in it_all(I, d[1])) + (it_count(I, d[3]) if d[3] is not None else 0)
    if d[0] == "user" and "Enumerate" in d[2].s:
        raise Unsupported("length of %s" % d[2].s)
    raise Unsupported("length of iterator %s" % d[0])


def to_it_owned(I, v):
    return to_it(I, v)


def collect(I, items, ty, info=None):
    p = ty.path if ty is not None else None
    if ty is None:
        return VecV(items)
    if p == "alloc::borrow::Cow" or (p in ("alloc::boxed::Box", "alloc::rcs::rc::Rc", "alloc::rc::Rc") and "str" in [x.s for x in ty.args]):
        s = StrV()
        for x in items:
            s = s + char_text(I, x)
        return s
    if p in ("alloc::collections::vec_deque::VecDeque", "alloc::collections::binary_heap::BinaryHeap"):
        return VecV(items)
    if p == "alloc::vec::Vec" or p == "alloc::boxed::Box":
        if p == "alloc::boxed::Box":
            return NatV("Box", I.alloc(VecV(items)))
        return VecV(items)
    if p in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
        m = ()
        for x in items:
            m = map_put(I, m, x.f[0], x.f[1])
        if "btree" in p:
            return stdmodels.arrange(I, NatV("Map", m))
        return NatV("Map", m)
    if p in ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet"):
        m = ()
        for x in items:
            k = hkey(I, x)
            if k not in m:
                m = m + (k,)
        if "btree" in p:
            return stdmodels.arrange(I, NatV("Set", m))
        return NatV("Set", m)
    if p == "alloc::string::String":
        s = StrV()
        for x in items:
            s = s + char_text(I, x)
        return s
    if p == "core::option::Option" or p == "core::result::Result":
        good = 1 if p.endswith("Option") else 0
        out = []
        for x in items:
            if x.var != good:
                return x
            out.append(x.f[0])
        inner = ty.args[0] if ty.args else None
        r = collect(I, out, inner)
        return some(r) if good else ok(r)
    if p == "bitvec::vec::BitVec":
        return NatV("Bits", tuple(I.load(x) if isinstance(x, Ref) else x for x in items))
    if ty.k == "tuple" and not ty.args and not ty.fields:
        return UNIT
    raise Unsupported("collect into %s" % ty.s)


# ---- methods
ITER = {}
VECM = {}
TABLE = {}


def meth(tab, *names):
    def deco(f):
        for n in names:
            tab[n] = f
        return f
    return deco


def fref(I, f):
    return I.mkref(f, "c") if not isinstance(f, Ref) else f


for _n in ("map", "filter", "filter_map", "inspect", "map_while"):
    ITER[_n] = (lambda n: lambda I, it, a, info: It(n, it, fref(I, a[0])))(_n)
ITER["enumerate"] = lambda I, it, a, info: It("enumerate", it, 0)
ITER["rev"] = lambda I, it, a, info: It("rev", it)
ITER["zip"] = lambda I, it, a, info: It("zip", it, to_it(I, a[0]))
ITER["chain"] = lambda I, it, a, info: It("chain", it, to_it(I, a[0]))
ITER["take"] = lambda I, it, a, info: It("take", it, I.concrete(a[0], "take count"))
ITER["skip"] = lambda I, it, a, info: It("skip", it, I.concrete(a[0], "skip count"))
ITER["take_while"] = lambda I, it, a, info: It("take_while", it, fref(I, a[0]), False)
ITER["skip_while"] = lambda I, it, a, info: It("skip_while", it, fref(I, a[0]), False)
ITER["cloned"] = ITER["copied"] = lambda I, it, a, info: It("cloned", it)
ITER["peekable"] = lambda I, it, a, info: It("peekable", it, None)
ITER["fuse"] = ITER["into_iter"] = lambda I, it, a, info: it
ITER["flat_map"] = lambda I, it, a, info: It("flat_map", it, fref(I, a[0]), None)
ITER["flatten"] = lambda I, it, a, info: It("flat_map", it, None, None)
ITER["scan"] = lambda I, it, a, info: It("scan", it, I.alloc(a[0]), fref(I, a[1]))


@meth(ITER, "step_by")
def _(I, it, a, info):
    n = a[0]
    if isinstance(n, Poly):
        return It("step_sym", it, n)
    if I.truth(I.compare("Eq", n, 0)):
        raise Panic("step_by(0)")
    return It("step_by", it, I.concrete(n, "step"), True)


@meth(ITER, "fold")
def _(I, it, a, info):
    acc, f = a[0], fref(I, a[1])
    while True:
        x, it = it_step(I, it)
        if x is END:
            return acc
        acc = I.call_callable(f, [acc, x])


@meth(ITER, "rfold")
def _(I, it, a, info):
    return ITER["fold"](I, It("rev", it), a, info)


@meth(ITER, "try_fold")
def _(I, it, a, info):
    acc, f = a[0], fref(I, a[1])
    last = None
    while True:
        x, it = it_step(I, it)
        if x is END:
            if last is not None:
                return Agg(last.ty, last.var, (acc,))
            t = info.dest_ty
            if t is not None and t.path == "core::option::Option":
                return some(acc)
            if t is not None and t.path == "core::ops::control_flow::ControlFlow":
                return Agg(t, 0, (acc,))
            return ok(acc)
        r = I.call_callable(f, [acc, x])
        good = {"core::option::Option": 1}.get(r.ty.path, 0)
        if r.var != good:
            return r
        last, acc = r, r.f[0] if r.f else UNIT


@meth(ITER, "try_for_each")
def _(I, it, a, info):
    f = fref(I, a[0])
    last = None
    while True:
        x, it = it_step(I, it)
        if x is END:
            t = info.dest_ty
            if last is not None:
                return last
            return some(UNIT) if t is not None and t.path == "core::option::Option" else ok(UNIT)
        r = I.call_callable(f, [x])
        if r.var != {"core::option::Option": 1}.get(r.ty.path, 0):
            return r
        last = r


@meth(ITER, "for_each")
def _(I, it, a, info):
    f = fref(I, a[0])
    n = 0
    while True:
        x, it = it_step(I, it)
        if x is END:
            return UNIT
        I.call_callable(f, [x])
        n += 1
        if n > 600:
            raise PathCut("iteration bound")


@meth(ITER, "all")
def _(I, it, a, info):
    f = fref(I, a[0])
    while True:
        x, it = it_step(I, it)
        if x is END:
            return True
        if not I.truth(I.call_callable(f, [x])):
            return False


@meth(ITER, "any")
def _(I, it, a, info):
    f = fref(I, a[0])
    while True:
        x, it = it_step(I, it)
        if x is END:
            return False
        if I.truth(I.call_callable(f, [x])):
            return True


@meth(ITER, "find")
def _(I, it, a, info):
    f = fref(I, a[0])
    while True:
        x, it = it_step(I, it)
        if x is END:
            return NONE
        if I.truth(I.call_callable(f, [I.mkref(x)])):
            return some(x)


@meth(ITER, "find_map")
def _(I, it, a, info):
    f = fref(I, a[0])
    while True:
        x, it = it_step(I, it)
        if x is END:
            return NONE
        r = I.call_callable(f, [x])
        if r.var == 1:
            return r


@meth(ITER, "position")
def _(I, it, a, info):
    f = fref(I, a[0])
    n = 0
    while True:
        x, it = it_step(I, it)
        if x is END:
            return NONE
        if I.truth(I.call_callable(f, [x])):
            return some(n)
        n += 1


ITER["count"] = lambda I, it, a, info: len(it_all(I, it))


@meth(ITER, "len")
def _(I, it, a, info):
    return it_count(I, it)


@meth(ITER, "last")
def _(I, it, a, info):
    x = it_all(I, it)
    return some(x[-1]) if x else NONE


@meth(ITER, "sum")
def _(I, it, a, info):
    acc = None
    for x in it_all(I, it):
        x = I.deref(x)
        acc = x if acc is None else arith(I, "add", acc, x)
    if acc is None:
        t = info.dest_ty
        acc = lift(0, True) if t is not None and t.k == "float" else cplx(dom.ZERO, dom.ZERO) if t is not None and t.path == "num_complex::Complex" else 0
    return acc


@meth(ITER, "product")
def _(I, it, a, info):
    acc = None
    for x in it_all(I, it):
        x = I.deref(x)
        acc = x if acc is None else arith(I, "mul", acc, x)
    if acc is None:
        t = info.dest_ty
        acc = lift(1, True) if t is not None and t.k == "float" else cplx(dom.ONE, dom.ZERO) if t is not None and t.path == "num_complex::Complex" else 1
    return acc


def _extreme(I, xs, sign, key=None):
    best = None
    for x in xs:
        if best is None:
            best = x
            continue
        c = cmp_value(I, key(x) if key else x, key(best) if key else best)
        if c * sign > 0 or (c == 0 and sign > 0):
            best = x
    return opt(best)


ITER["max"] = lambda I, it, a, info: _extreme(I, it_all(I, it), 1)
ITER["min"] = lambda I, it, a, info: _extreme(I, it_all(I, it), -1)
ITER["max_by_key"] = lambda I, it, a, info: _extreme(I, it_all(I, it), 1, lambda x: I.call_callable(fref(I, a[0]), [I.mkref(x)]))
ITER["min_by_key"] = lambda I, it, a, info: _extreme(I, it_all(I, it), -1, lambda x: I.call_callable(fref(I, a[0]), [I.mkref(x)]))
ITER["collect"] = lambda I, it, a, info: collect(I, it_all(I, it), info.dest_ty, info)


@meth(ITER, "reduce")
def _(I, it, a, info):
    f = fref(I, a[0])
    acc = None
    for x in it_all(I, it):
        acc = x if acc is None else I.call_callable(f, [acc, x])
    return opt(acc)


@meth(ITER, "partition")
def _(I, it, a, info):
    f = fref(I, a[0])
    yes, no = [], []
    for x in it_all(I, it):
        (yes if I.truth(I.call_callable(f, [I.mkref(x)])) else no).append(x)
    return tup(VecV(yes), VecV(no))


@meth(ITER, "unzip")
def _(I, it, a, info):
    xs = it_all(I, it)
    return tup(VecV([x.f[0] for x in xs]), VecV([x.f[1] for x in xs]))


@meth(ITER, "eq", "ne")
def _(I, it, a, info):
    return eq_value(I, VecV(it_all(I, it)), VecV(it_all(I, to_it(I, a[0]))))


@meth(ITER, "size_hint")
def _(I, it, a, info):
    return tup(0, NONE)


MUTITER = {"next", "next_back", "nth", "peek", "by_ref", "next_if"}


def iter_dispatch(I, name, args, info):
    r = args[0]
    if name in MUTITER or (isinstance(r, Ref) and name in ("len", "size_hint", "all", "any", "find", "position", "try_fold", "find_map",
                                                          "try_for_each", "advance_by", "nth_back", "is_empty")):
        if not isinstance(r, Ref):
            return NotImplemented
        v = I.load(r)
        while isinstance(v, Ref) and v.rng is None:
            r, v = v, I.load(v)
        if name == "by_ref":
            return r
        if name in ("next", "next_back"):
            x, _ = it_step_any(I, v, r, name == "next_back")
            return NONE if x is END else some(x)
        if name in ("nth", "nth_back"):
            x = END
            for _ in range(I.concrete(args[1], "nth") + 1):
                x, _n = it_step_any(I, I.load(r), r, name == "nth_back")
                if x is END:
                    return NONE
            return some(x)
        if name == "peek":
            if isinstance(v, NatV) and v.d[0] == "peekable":
                if v.d[2] is None:
                    x, n = it_step(I, v.d[1])
                    v = It("peekable", n, () if x is END else (x,))
                    I.store(r, v)
                return NONE if v.d[2] == () else some(I.mkref(v.d[2][0]))
            return NotImplemented
        if name in ("len", "size_hint"):
            return ITER[name](I, to_it(I, v), [], info)
        h = ITER.get(name)
        if h is None:
            return NotImplemented
        return h(I, It("by_ref", r), args[1:], info)
    h = ITER.get(name)
    if h is None:
        return NotImplemented
    return h(I, to_it(I, r), args[1:], info)


# ---------------------------------------------------------------- vectors and slices
def as_vec(I, r):
    """(ref, VecV) for a mutable vector receiver."""
    v = I.load(r)
    while isinstance(v, Ref):
        r, v = v, I.load(v)
    if isinstance(v, NatV) and v.kind in ("RefMut",):
        return as_vec(I, v.d)
    if isinstance(v, NatV) and v.kind == "Buf":
        return Ref(v.d), I.get_obj(v.d)
    if not isinstance(v, VecV):
        if isinstance(v, StrV) and v.lit() is not None:
            return r, VecV(tuple(v.lit().encode("utf-8", "surrogateescape")))
        raise Unsupported("vector %s" % short(v))
    return r, v


def vecm(*names):
    return meth(VECM, *names)


@vecm("new", "with_capacity", "default")
def _(I, a, info):
    return VecV(())


@vecm("push")
def _(I, a, info):
    if text_args(I, a[0]):
        I.store(text_place(I, a[0]), cmodels.to_text(I, a[0]) + cmodels.bytes_text([a[1]]))
        return UNIT
    r, v = as_vec(I, a[0])
    I.store(r, VecV(v.items + (a[1],)))
    return UNIT


@vecm("pop")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    if not v.items:
        return NONE
    I.store(r, VecV(v.items[:-1]))
    return some(v.items[-1])


@vecm("len")
def _(I, a, info):
    return I.slice_len(a[0])


@vecm("is_empty")
def _(I, a, info):
    return I.compare("Eq", I.slice_len(a[0]), 0)


@vecm("clear")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    I.store(r, VecV(()))
    return UNIT


@vecm("capacity")
def _(I, a, info):
    return I.slice_len(a[0])


@vecm("reserve", "shrink_to_fit", "reserve_exact", "shrink_to")
def _(I, a, info):
    return UNIT


@vecm("insert")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    i = I.concrete(a[1], "index")
    if i > len(v.items):
        raise Panic("insertion index out of bounds")
    I.store(r, VecV(v.items[:i] + (a[2],) + v.items[i:]))
    return UNIT


@vecm("remove")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    i = I.concrete(a[1], "index")
    if i >= len(v.items):
        raise Panic("removal index out of bounds")
    I.store(r, VecV(v.items[:i] + v.items[i + 1:]))
    return v.items[i]


@vecm("swap_remove")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    i = I.concrete(a[1], "index")
    if i >= len(v.items):
        raise Panic("removal index out of bounds")
    it = list(v.items)
    x = it[i]
    it[i] = it[-1]
    I.store(r, VecV(it[:-1]))
    return x


def text_args(I, *vs):
    return any(isinstance(I.deref(v), StrV) for v in vs)


@vecm("append")
def _(I, a, info):
    if text_args(I, a[0], a[1]):
        t = cmodels.to_text(I, a[1])
        I.store(text_place(I, a[1]), VecV(()))
        I.store(text_place(I, a[0]), cmodels.to_text(I, a[0]) + t)
        return UNIT
    r, v = as_vec(I, a[0])
    r2, w = as_vec(I, a[1])
    I.store(r2, VecV(()))
    r, v = as_vec(I, a[0])
    I.store(r, VecV(v.items + w.items))
    return UNIT


def text_place(I, r):
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    v = I.load(r)
    return Ref(v.d) if isinstance(v, NatV) and v.kind in ("Buf", "Box") else r


@vecm("extend_from_slice", "extend_from_within")
def _(I, a, info):
    if text_args(I, a[0], a[1]):
        I.store(text_place(I, a[0]), cmodels.to_text(I, a[0]) + cmodels.to_text(I, a[1]))
        return UNIT
    r, v = as_vec(I, a[0])
    I.store(r, VecV(v.items + tuple(clone_value(I, x) for x in I.slice_items(a[1]))))
    return UNIT


@vecm("truncate")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    n = I.concrete(a[1], "length")
    I.store(r, VecV(v.items[:n]))
    return UNIT


@vecm("resize")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    n = I.concrete(a[1], "length")
    I.store(r, VecV(v.items[:n] + (a[2],) * (n - len(v.items))))
    return UNIT


@vecm("resize_with")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    n = I.concrete(a[1], "length")
    f = fref(I, a[2])
    I.store(r, VecV(v.items[:n] + tuple(I.call_callable(f, []) for _ in range(n - len(v.items)))))
    return UNIT


@vecm("drain")
def _(I, a, info):
    t = I.deref(a[0])
    if isinstance(t, StrV):
        # bytes written as text: symbolic parts stand for unknown runs of bytes
        n = I.slice_len(t)
        I.store(a[0], VecV(text_bytes(t)))
        if len(a) > 1 and isinstance(n, Poly) and isinstance(a[1], Agg) and any(isinstance(x, Poly) and x == n for x in a[1].f):
            k = len(text_bytes(t))
            a = [a[0], Agg(a[1].ty, a[1].var, tuple(k if isinstance(x, Poly) and x == n else x for x in a[1].f))]
    r, v = as_vec(I, a[0])
    lo, hi = range_bounds(I, a[1], len(v.items)) if len(a) > 1 else (0, len(v.items))
    if (lo, hi) != (0, len(v.items)) and any(isinstance(x, Opaque) and isinstance(x.key, tuple) and x.key[0] == "textpart" for x in v.items):
        raise Unsupported("index into text of unknown length")
    I.store(r, VecV(v.items[:lo] + v.items[hi:]))
    return It("list", v.items[lo:hi], 0, hi - lo)


@vecm("split_off")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    n = I.concrete(a[1], "index")
    I.store(r, VecV(v.items[:n]))
    return VecV(v.items[n:])


@vecm("retain", "retain_mut")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    f = fref(I, a[1])
    keep = []
    for i in range(len(v.items)):
        e = Ref(r.obj, r.path + (i,))
        if I.truth(I.call_callable(f, [e])):
            keep.append(i)
    v = I.load(r)
    I.store(r, VecV([v.items[i] for i in keep]))
    return UNIT


@vecm("dedup")
def _(I, a, info):
    r, v = as_vec(I, a[0])
    out = []
    for x in v.items:
        if not out or not I.truth(eq_value(I, out[-1], x)):
            out.append(x)
    I.store(r, VecV(out))
    return UNIT


@vecm("leak", "as_slice", "as_mut_slice", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "as_bytes", "into_boxed_slice",
      "into_vec")
def _(I, a, info):
    v = a[0]
    name = info.path.split("::")[-1] if getattr(info, "path", None) else None
    if name == "into_boxed_slice" and isinstance(v, (VecV, StrV, NatV)):
        return NatV("Box", I.alloc(v))
    if name == "into_vec" and isinstance(v, NatV) and v.kind == "Box":
        return I.get_obj(v.d)
    if isinstance(v, VecV):
        return I.mkref(v)
    if isinstance(v, Ref) and v.rng is None:
        t = I.load(v)
        if isinstance(t, Ref):
            return t
        if isinstance(t, StrV):
            return t
    return v


@vecm("as_ptr", "as_mut_ptr")
def _(I, a, info):
    v = a[0]
    if isinstance(v, StrV):
        return v
    t = I.deref(v)
    if isinstance(t, StrV):
        return t
    if isinstance(t, NatV) and t.kind in ("SymVec", "CStr"):
        return NatV("PtrOff", (v, lift(0)))
    el = info.targs[0] if info.targs else None
    if isinstance(v, Ref) and v.rng is None and "Vec" in info.path:
        o = promote(I, v)
        if o is not None:
            return Ref(o, (("b", 0),) if el is not None and el.size == 1 else (0,))
    b, lo, hi = slice_ref(I, v)
    if el is not None and el.size == 1:
        return Ref(b.obj, b.path + (("b", lo),))
    return Ref(b.obj, b.path + (lo,))


@vecm("iter", "iter_mut")
def _(I, a, info):
    v = a[0]
    if isinstance(v, (VecV, StrV)):
        v = I.mkref(VecV(I.slice_items(v)))
    return to_it(I, v)


@vecm("first", "first_mut", "last", "last_mut")
def _(I, a, info):
    b, lo, hi = slice_ref(I, a[0])
    if lo == hi:
        return NONE
    first = info.path.rsplit("::", 1)[-1].startswith("first")
    return some(Ref(b.obj, b.path + (lo if first else hi - 1,)))


@vecm("split_first", "split_last", "split_first_mut", "split_last_mut")
def _(I, a, info):
    b, lo, hi = slice_ref(I, a[0])
    if lo == hi:
        return NONE
    if "first" in info.path.rsplit("::", 1)[-1]:
        return some(tup(Ref(b.obj, b.path + (lo,)), Ref(b.obj, b.path, (lo + 1, hi))))
    return some(tup(Ref(b.obj, b.path + (hi - 1,)), Ref(b.obj, b.path, (lo, hi - 1))))


@vecm("split_at", "split_at_mut")
def _(I, a, info):
    b, lo, hi = slice_ref(I, a[0])
    m = lo + I.concrete(a[1], "split index")
    if m > hi:
        raise Panic("split index out of bounds")
    return tup(Ref(b.obj, b.path, (lo, m)), Ref(b.obj, b.path, (m, hi)))


@vecm("get", "get_mut", "get_unchecked", "get_unchecked_mut")
def _(I, a, info):
    b, lo, hi = slice_ref(I, a[0])
    i = a[1]
    un = "unchecked" in info.path
    if isinstance(i, Poly) and not i.is_const():
        if not I.truth(I.compare("Lt", i, hi - lo)):
            return NONE
        for k in range(hi - lo):
            if I.truth(I.compare("Eq", i, k)):
                i = k
                break
    if isinstance(i, (int, Poly)):
        i = I.concrete(i, "index")
        if i < 0 or i >= hi - lo:
            if un:
                raise UB("unchecked index out of bounds")
            return NONE
        r = Ref(b.obj, b.path + (lo + i,))
        return r if un else some(r)
    s, e = range_bounds(I, i, hi - lo)
    if s > e or e > hi - lo:
        return NONE
    return some(Ref(b.obj, b.path, (lo + s, lo + e)))


@vecm("contains")
def _(I, a, info):
    for x in I.slice_items(a[0]):
        if I.truth(eq_value(I, x, a[1])):
            return True
    return False


@vecm("swap")
def _(I, a, info):
    i, j = I.concrete(a[1]), I.concrete(a[2])
    b, lo, hi = slice_ref(I, a[0])
    if i >= hi - lo or j >= hi - lo:
        raise Panic("index out of bounds")
    x, y = Ref(b.obj, b.path + (lo + i,)), Ref(b.obj, b.path + (lo + j,))
    u, v = I.load(x), I.load(y)
    I.store(x, v)
    I.store(y, u)
    return UNIT


@vecm("reverse")
def _(I, a, info):
    set_items(I, a[0], lambda xs: xs[::-1])
    return UNIT


def set_items(I, r, fn):
    b, lo, hi = slice_ref(I, r)
    v = I.load(b)
    it = list(v.items)
    it[lo:hi] = fn(it[lo:hi])
    I.store(b, VecV(it))


@vecm("sort", "sort_unstable")
def _(I, a, info):
    set_items(I, a[0], lambda xs: sorted(xs, key=functools.cmp_to_key(lambda x, y: cmp_value(I, x, y))))
    return UNIT


@vecm("sort_by", "sort_unstable_by")
def _(I, a, info):
    f = fref(I, a[1])

    def c(x, y):
        r = I.call_callable(f, [I.mkref(x), I.mkref(y)])
        return r.ty.variants[r.var][1] if r.ty.variants[r.var][1] < 128 else -1
    set_items(I, a[0], lambda xs: sorted(xs, key=functools.cmp_to_key(c)))
    return UNIT


@vecm("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(I, a, info):
    f = fref(I, a[1])
    set_items(I, a[0], lambda xs: sorted(xs, key=functools.cmp_to_key(lambda x, y: cmp_value(I, I.call_callable(f, [I.mkref(x)]), I.call_callable(f, [I.mkref(y)])))))
    return UNIT


@vecm("to_vec", "to_owned", "into_owned")
def _(I, a, info):
    v = I.deref(a[0])
    if isinstance(v, StrV):
        return v
    return VecV([clone_value(I, x) for x in I.slice_items(a[0])])


@vecm("concat")
def _(I, a, info):
    out = []
    for x in I.slice_items(a[0]):
        x = I.deref(x)
        if isinstance(x, StrV):
            out.append(x)
        else:
            out.append(VecV(I.slice_items(x)))
    if out and isinstance(out[0], StrV):
        s = StrV()
        for x in out:
            s = s + x
        return s
    return VecV([y for x in out for y in x.items])


@vecm("copy_from_slice", "clone_from_slice")
def _(I, a, info):
    src = I.slice_items(a[1])
    b, lo, hi = slice_ref(I, a[0])
    if hi - lo != len(src):
        raise Panic("copy_from_slice: length mismatch")
    set_items(I, a[0], lambda xs: list(src))
    return UNIT


@vecm("fill")
def _(I, a, info):
    set_items(I, a[0], lambda xs: [a[1]] * len(xs))
    return UNIT


@vecm("windows", "chunks", "chunks_exact", "chunks_mut", "chunks_exact_mut")
def _(I, a, info):
    b, lo, hi = slice_ref(I, a[0])
    n = info.path.rsplit("::", 1)[-1].replace("_mut", "")
    return It(n, b, lo, hi, I.concrete(a[1], "chunk size"))


@vecm("starts_with")
def _(I, a, info):
    x, y = I.slice_items(a[0]), I.slice_items(a[1])
    return len(x) >= len(y) and eq_value(I, VecV(x[:len(y)]), VecV(y))


def range_bounds(I, r, n):
    if isinstance(r, Agg) and (r.ty is None or r.ty.path is None):
        raise Unsupported("range %s" % short(r))
    p = r.ty.path.split("::")[-1] if isinstance(r, Agg) else None
    if p == "Range":
        return I.concrete(r.f[0], "bound"), I.concrete(r.f[1], "bound")
    if p == "RangeFrom":
        return I.concrete(r.f[0], "bound"), n
    if p == "RangeTo":
        return 0, I.concrete(r.f[0], "bound")
    if p == "RangeFull":
        return 0, n
    if p == "RangeInclusive":
        return I.concrete(r.f[0], "bound"), I.concrete(r.f[1], "bound") + 1
    if p == "RangeToInclusive":
        return 0, I.concrete(r.f[0], "bound") + 1
    raise Unsupported("range %s" % short(r))


def index(I, base, i, info):
    """Index / IndexMut on vectors, slices, strings, maps."""
    t = base
    while isinstance(t, Ref) and t.rng is None:
        u = I.load(t)
        if isinstance(u, (VecV,)):
            break
        if isinstance(u, NatV):
            d = nat_deref(I, u)
            if d is not None:
                t = d
                continue
            if u.kind == "Map":
                k = hkey(I, i)
                for kk, x in u.d:
                    if kk == k:
                        return Ref(t.obj, t.path + (("k", kk),))
                raise Panic("key not found in map")
            if u.kind == "Mat":
                ij = I.deref(i)
                if isinstance(ij, (Agg, VecV)):
                    a, b = (ij.f if isinstance(ij, Agg) else ij.items)
                    a, b = I.concrete(a), I.concrete(b)
                    if a >= len(u.d) or (u.d and b >= len(u.d[0])):
                        raise Panic("ndarray: index out of bounds")
                    return Ref(t.obj, t.path + (("e", a, b),))
                return Ref(t.obj, t.path + (("e", 0, I.concrete(ij)),))
            if u.kind in ("Grid", "MatSlice"):
                g, ij = matmodels.grid(I, u)[0], matmodels.index_of(I, i)
                if ij[0] >= len(g) or ij[1] >= len(g[ij[0]]):
                    raise Panic("ndarray: index out of bounds")
                return g[ij[0]][ij[1]]
            if u.kind == "Bits":
                k = I.concrete(i, "bit index")
                if k >= len(u.d):
                    raise Panic("bit index out of bounds")
                return Ref(t.obj, t.path + (k,))
            break
        t = u
    if isinstance(t, StrV) or (isinstance(t, Ref) and t.rng is None and isinstance(I.load(t), StrV)):
        s = I.deref(t).lit()
        if s is None:
            raise Unsupported("slice of symbolic text")
        b = s.encode("utf-8", "surrogateescape")
        if isinstance(i, int):
            if i >= len(b):
                raise Panic("index out of bounds")
            return I.mkref(b[i])
        lo, hi = range_bounds(I, i, len(b))
        if lo > hi or hi > len(b):
            raise Panic("string index out of bounds")
        return StrV((b[lo:hi].decode("utf-8", "surrogateescape"),))
    b, lo, hi = slice_ref(I, base)
    if isinstance(i, Poly) and not i.is_const():
        if not I.truth(I.compare("Lt", i, hi - lo)):
            raise Panic("index out of bounds")
        for k in range(hi - lo):
            if I.truth(I.compare("Eq", i, k)):
                i = k
                break
        else:
            raise PathCut("infeasible")
    if isinstance(i, (int, Poly)):
        i = I.concrete(i, "index")
        if i < 0 or i >= hi - lo:
            raise Panic("index out of bounds: the len is %d but the index is %d" % (hi - lo, i))
        return Ref(b.obj, b.path + (lo + i,))
    s, e = range_bounds(I, i, hi - lo)
    if s > e or e > hi - lo:
        raise Panic("range out of bounds")
    return Ref(b.obj, b.path, (lo + s, lo + e))


# ---------------------------------------------------------------- hash maps
def hkey(I, k):
    k = I.deref(k)
    if isinstance(k, (int, StrV)):
        return k
    if isinstance(k, Agg):
        return Agg(k.ty, k.var, [hkey(I, x) for x in k.f])
    if isinstance(k, VecV):
        return k
    raise Unsupported("map key %s" % short(k))


def map_put(I, m, k, v):
    hk = hkey(I, k)
    out, hit = [], False
    for kk, x in m:
        if kk == hk:
            out.append((kk, v))
            hit = True
        else:
            out.append((kk, x))
    if not hit:
        out.append((hk, v))
    return tuple(out)


def nat_at(I, r, *kinds):
    v = I.load(r)
    while True:
        if isinstance(v, Ref):
            r, v = v, I.load(v)
        elif isinstance(v, NatV) and v.kind in ("RefMut", "RefG"):
            r = v.d
            v = I.load(r)
        else:
            break
    if not (isinstance(v, NatV) and v.kind in kinds):
        raise Unsupported("%s is not a %s" % (short(v), kinds))
    return r, v


def mapm(I, name, a, info):
    if name in ("new", "default", "with_capacity", "with_capacity_and_hasher", "with_hasher"):
        return NatV("Map", ())
    if name in ("into_iter", "into_keys", "into_values") and isinstance(a[0], NatV):
        it = to_it(I, a[0])
        if name == "into_iter":
            return it
        return It("list", tuple(x.f[0 if name == "into_keys" else 1] for x in it.d[1]), 0, it.d[3])
    r, v = nat_at(I, a[0], "Map")
    if name == "insert":
        k = hkey(I, a[1])
        old = [x for kk, x in v.d if kk == k]
        I.store(r, NatV("Map", map_put(I, v.d, a[1], a[2])))
        return opt(old[0] if old else None)
    if name in ("get", "get_mut"):
        k = hkey(I, a[1])
        for kk, x in v.d:
            if kk == k:
                return some(Ref(r.obj, r.path + (("k", kk),)))
        return NONE
    if name == "get_key_value":
        k = hkey(I, a[1])
        for kk, x in v.d:
            if kk == k:
                return some(tup(I.mkref(kk), Ref(r.obj, r.path + (("k", kk),))))
        return NONE
    if name == "contains_key":
        k = hkey(I, a[1])
        return any(kk == k for kk, _ in v.d)
    if name in ("remove", "remove_entry"):
        k = hkey(I, a[1])
        for kk, x in v.d:
            if kk == k:
                I.store(r, NatV("Map", tuple(e for e in v.d if e[0] != k)))
                return some(x if name == "remove" else tup(kk, x))
        return NONE
    if name in ("iter", "iter_mut", "into_iter"):
        return to_it(I, r)
    if name in ("values", "values_mut"):
        return It("list", tuple(Ref(r.obj, r.path + (("k", k),)) for k, _ in v.d), 0, len(v.d))
    if name == "keys":
        return It("list", tuple(I.mkref(k) for k, _ in v.d), 0, len(v.d))
    if name == "drain":
        I.store(r, NatV("Map", ()))
        return to_it(I, v)
    if name == "len":
        return len(v.d)
    if name == "is_empty":
        return not v.d
    if name == "clear":
        I.store(r, NatV("Map", ()))
        return UNIT
    if name in ("reserve", "shrink_to_fit"):
        return UNIT
    if name == "retain":
        f = fref(I, a[1])
        keep = [k for k, _ in v.d if I.truth(I.call_callable(f, [I.mkref(k), Ref(r.obj, r.path + (("k", k),))]))]
        v = I.load(r)
        I.store(r, NatV("Map", tuple(e for e in v.d if e[0] in keep)))
        return UNIT
    if name == "extend":
        m = v.d
        for x in it_all(I, to_it(I, a[1])):
            m = map_put(I, m, x.f[0], x.f[1])
        I.store(r, NatV("Map", m))
        return UNIT
    if name == "entry":
        return NatV("Entry", (r, hkey(I, a[1])))
    return NotImplemented


def entrym(I, name, a, info):
    e = a[0]
    if not (isinstance(e, NatV) and e.kind == "Entry"):
        return NotImplemented
    r, k = e.d
    v = I.load(r)
    has = any(kk == k for kk, _ in v.d)
    ref = Ref(r.obj, r.path + (("k", k),))
    if name in ("or_insert", "or_insert_with", "or_default"):
        if not has:
            if name == "or_insert":
                x = a[1]
            elif name == "or_insert_with":
                x = I.call_callable(a[1], [])
            else:
                x = cplx(dom.ZERO, dom.ZERO)
                t = info.dest_ty
                if t is not None and t.elem is not None and t.elem.path != "num_complex::Complex":
                    x = default_of(I, t.elem)
            I.store(r, NatV("Map", I.load(r).d + ((k, x),)))
        return ref
    if name == "and_modify":
        if has:
            I.call_callable(a[1], [ref])
        return e
    return NotImplemented


def setm(I, name, a, info):
    if name in ("new", "default", "with_capacity", "with_capacity_and_hasher", "with_hasher"):
        return NatV("Set", ())
    if name == "into_iter" and isinstance(a[0], NatV):
        return to_it(I, a[0])
    r, v = nat_at(I, a[0], "Set")
    if name == "insert":
        k = hkey(I, a[1])
        if k in v.d:
            return False
        I.store(r, NatV("Set", v.d + (k,)))
        return True
    if name == "contains":
        return hkey(I, a[1]) in v.d
    if name == "remove":
        k = hkey(I, a[1])
        I.store(r, NatV("Set", tuple(x for x in v.d if x != k)))
        return k in v.d
    if name == "len":
        return len(v.d)
    if name == "is_empty":
        return not v.d
    if name in ("iter", "into_iter"):
        return to_it(I, r)
    if name == "extend":
        d = v.d
        for x in it_all(I, to_it(I, a[1])):
            k = hkey(I, x)
            if k not in d:
                d = d + (k,)
        I.store(r, NatV("Set", d))
        return UNIT
    if name == "clear":
        I.store(r, NatV("Set", ()))
        return UNIT
    return NotImplemented


def default_of(I, ty):
    if ty is None:
        raise Unsupported("default of unknown type")
    if ty.k == "int" or ty.s in INT_BITS:
        return 0
    if ty.k == "float":
        return lift(0, True)
    if ty.k == "bool" or ty.s == "bool":
        return False
    p = ty.path
    if ty.s == "&str":
        return StrV()
    if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::binary_heap::BinaryHeap"):
        return VecV(())
    if ty.k == "array" and ty.n is not None and ty.elem is not None:
        return VecV([default_of(I, ty.elem) for _ in range(ty.n)])
    if ty.k == "tuple":
        ts = stdmodels.part_list(ty, len(ty.args) or len(ty.fields))
        return tup(*[default_of(I, t) for t in ts]) if ts else UNIT
    if p in ("alloc::collections::btree::map::BTreeMap",):
        return NatV("Map", ())
    if p == "alloc::collections::btree::set::BTreeSet":
        return NatV("Set", ())
    if p in ("alloc::rc::Rc", "alloc::rcs::rc::Rc"):
        return rc_new(I, default_of(I, ty.args[0]))
    if p == "alloc::string::String":
        return StrV()
    if p == "core::option::Option":
        return NONE
    if p == "num_complex::Complex":
        return cplx(dom.ZERO, dom.ZERO)
    if p in ("num_bigint::biguint::BigUint", "num_bigint::bigint::BigInt"):
        return 0
    if p == "std::collections::hash::map::HashMap":
        return NatV("Map", ())
    if p == "std::collections::hash::set::HashSet":
        return NatV("Set", ())
    if p == "core::cell::RefCell":
        return NatV("RefCell", (0, default_of(I, ty.args[0])))
    if p == "core::cell::Cell":
        return NatV("Cell", default_of(I, ty.args[0]))
    if p == "alloc::boxed::Box":
        return NatV("Box", I.alloc(default_of(I, ty.args[0])))
    fs = I.P.by_path.get("<%s as core::default::Default>::default" % ty.s)
    if fs:
        return I.call_fn(fs[0], [])
    if p is not None:
        for k, fs in I.P.by_path.items():
            if k.endswith("as core::default::Default>::default") and k.startswith("<" + p) and fs[0].locals[0] is ty:
                return I.call_fn(fs[0], [])
    raise Unsupported("default of %s" % ty.s)


# ---------------------------------------------------------------- numbers
def as_c(v):
    if is_complex(v):
        return v.f[0], v.f[1]
    return lift(v, True), dom.ZERO


def arith(I, op, a, b):
    """Operator on numbers: complex, big integers, floats."""
    if is_complex(a) or is_complex(b):
        (ar, ai), (br, bi) = as_c(a), as_c(b)
        if op == "add":
            return cplx(ar + br, ai + bi)
        if op == "sub":
            return cplx(ar - br, ai - bi)
        if op == "mul":
            if not ai.d and not bi.d:
                return cplx(ar * br, dom.ZERO)
            return cplx(ar * br - ai * bi, ar * bi + ai * br)
        if op == "div":
            n = dom.recip(br * br + bi * bi)
            return cplx((ar * br + ai * bi) * n, (ai * br - ar * bi) * n)
        raise Unsupported("complex " + op)
    if isinstance(a, int) and isinstance(b, int):
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op in ("div", "rem"):
            if b == 0:
                raise Panic("division by zero")
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return q if op == "div" else a - q * b
        if op == "bitand":
            return a & b
        if op == "bitor":
            return a | b
        if op == "bitxor":
            return a ^ b
        if op == "shl":
            if a == 0:
                return 0
            if b > 1 << 16:
                return dom.A("fn", ("shl", lift(a), lift(b)), False)
            return a << b
        if op == "shr":
            return a >> b
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        x, y = lift(a), lift(b)
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        if x.flt or y.flt:
            if op == "div":
                return x * dom.recip(y)
        if op in ("bitand", "bitor", "bitxor"):
            x, y = sorted((x, y), key=repr)
        if op in ("div", "rem") and y.is_const() and y.const() in (1, -1):
            return x * y if op == "div" else lift(0)
        if op == "rem" and not (x.flt or y.flt):
            return x - y * dom.A("fn", ("div", x, y), False)
        return dom.A("fn", (op, x, y), False)
    raise Unsupported("operator %s on %s, %s" % (op, short(a), short(b)))


def big_operand(fn, path):
    p = fn.p if fn is not None else path
    return "num_bigint" in p


OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor",
       "Shl": "shl", "Shr": "shr"}


def operator(I, tr, name, fn, path, args, info):
    a = I.deref(args[0])
    big = big_operand(fn, path)
    if tr in ("Neg", "Not"):
        if is_complex(a):
            return cplx(-a.f[0], -a.f[1])
        if big and isinstance(a, (int, Poly)):
            if tr == "Neg":
                return -a
            return ~a if isinstance(a, int) else -a - 1
        if isinstance(a, Poly) and a.flt:
            return -a
        if isinstance(a, (bool, Cond)):
            return I.bnot(a)
        return NotImplemented
    assign = tr.endswith("Assign")
    op = OPS.get(tr[:-6] if assign else tr)
    if op is None:
        return NotImplemented
    b = I.deref(args[1])
    if any(isinstance(x, NatV) and x.kind in ("Mat", "Grid", "MatSlice") for x in (a, b)):
        r = matmodels.matrix_op(I, op, args[0], args[1])
        if r is not NotImplemented and assign:
            g = matmodels.grid(I, args[0])[0]
            for x, y in zip(g, r.d):
                for p, v in zip(x, y):
                    I.store(p, v)
            return UNIT
        return r
    if isinstance(a, StrV) and op == "add":
        r = a + I.deref(b)
        if assign:
            I.store(args[0], r)
            return UNIT
        return r
    fl = isinstance(a, Poly) and a.flt and isinstance(b, (Poly, int)) or isinstance(b, Poly) and b.flt and isinstance(a, (Poly, int))
    if not (big or is_complex(a) or is_complex(b) or fl):
        return NotImplemented
    r = arith(I, op, a, b)
    if big and op == "sub" and "biguint" in (fn.p if fn is not None else path) and isinstance(r, int) and r < 0:
        raise Panic("Cannot subtract b from a because b is larger than a.")
    if assign:
        t = args[0]
        while isinstance(I.load(t), Ref):
            t = I.load(t)
        I.store(t, r)
        return UNIT
    return r


def fp_method(I, name, a):
    """Methods of f64 on constants, in IEEE arithmetic."""
    if name == "from_bits":
        n = I.concrete(a[0])
        return fp.from_bits(n)
    x = fp.f(a[0])
    if x is None:
        return NotImplemented
    if name in fp.UN:
        return fp.UN[name](x)
    if name in fp.PRED:
        return fp.PRED[name](x)
    if name == "sin_cos":
        return tup(fp.UN["sin"](x), fp.UN["cos"](x))
    if name == "to_bits":
        return fp.bits(x)
    if name == "powi":
        return fp.powi(x, I.concrete(a[1]))
    ys = [fp.f(v) for v in a[1:]]
    if None in ys:
        return NotImplemented
    if name in fp.TWO:
        return fp.TWO[name](x, ys[0])
    if name == "mul_add":
        return x * ys[0] + ys[1]
    if name == "clamp":
        return x if x != x else ys[0] if x < ys[0] else ys[1] if x > ys[1] else x
    if name == "total_cmp":
        k = lambda v: (lambda b: b ^ ((1 << 63) - 1 if b >> 63 else 0))(fp.bits(v))
        u, w = k(x), k(ys[0])
        u, w = (u - (1 << 64) if u >> 63 else u), (w - (1 << 64) if w >> 63 else w)
        return ordering(I, (u > w) - (u < w))
    return NotImplemented


def f64m(I, name, a, info):
    x = I.deref(a[0])
    if type(x) is float or len(a) > 1 and type(I.deref(a[1])) is float or name == "from_bits":
        return fp_method(I, name, [I.deref(v) for v in a])
    if not isinstance(x, (Poly, int)):
        return NotImplemented
    x = lift(x, True)
    h = I.cfg.get("f64")
    if h is not None:
        r = h(I, name, a, info)
        if r is not NotImplemented:
            return r
    if name == "abs":
        return I.fabs(x)
    if name == "sqrt":
        return dom.power(x, Fraction(1, 2))
    if name == "cos":
        return dom.cossin(x)[0]
    if name == "sin":
        return dom.cossin(x)[1]
    if name == "sin_cos":
        c, s = dom.cossin(x)
        return tup(s, c)
    if name == "powi":
        n = I.concrete(a[1], "exponent")
        return dom.power(x, n)
    if name == "recip":
        return dom.recip(x)
    if name == "mul_add":
        return x * lift(a[1], True) + lift(a[2], True)
    if name in ("max", "min"):
        y = lift(I.deref(a[1]), True)
        if (x - y).is_const():
            lt = (x - y).const() < 0
            return (y if lt else x) if name == "max" else (x if lt else y)
        d = I.fabs(x - y)
        return (x + y + d if name == "max" else x + y - d) * Fraction(1, 2)
    if name == "clamp":
        lo, hi = lift(a[1], True), lift(a[2], True)
        if I.truth(I.compare("Lt", x, lo)):
            return lo
        return hi if I.truth(I.compare("Lt", hi, x)) else x
    if name == "exp" and not x.d:
        return dom.ONE
    if name in ("is_nan", "is_infinite"):
        c = dom.approx(x)
        if c is not None:
            return False
        return Cond("atom", (name, x))
    if name == "is_finite":
        c = dom.approx(x)
        if c is not None:
            return True
        return Cond("atom", ("is_finite", x))
    if name in ("is_sign_negative", "is_sign_positive"):
        c = dom.approx(x)
        if c is not None and c != 0:
            return (c < 0) == (name == "is_sign_negative")
        r = Cond("atom", ("signbit", x))
        return r if name == "is_sign_negative" else r.negate()
    if name in ("to_radians",):
        return x * dom.P_PI * Fraction(1, 180)
    if name in ("tan", "exp", "ln", "log2", "log10", "floor", "ceil", "round", "trunc", "sinh", "cosh", "tanh", "asin", "acos", "atan", "fract", "signum",
                "round_ties_even", "cbrt", "exp2", "exp_m1", "ln_1p", "asinh", "acosh", "atanh"):
        return dom.A("fn", (name, x))
    if name in ("atan2", "hypot", "log", "copysign", "powf", "rem_euclid", "div_euclid"):
        return dom.A("fn", (name, x, lift(I.deref(a[1]), True)))
    if name in ("to_bits",):
        return dom.A("fn", ("bits", x), False)
    if name == "total_cmp":
        return ordering(I, cmp_value(I, x, a[1]))
    return NotImplemented


def complexm(I, name, a, info):
    if name == "new":
        return cplx(lift(a[0], True), lift(a[1], True))
    if name == "i":
        return cplx(dom.ZERO, dom.ONE)
    if name in ("from_polar",):
        r = lift(a[0], True)
        c, s = dom.cossin(lift(a[1], True))
        return cplx(r * c, r * s)
    if name == "cis":
        c, s = dom.cossin(lift(a[0], True))
        return cplx(c, s)
    v = I.deref(a[0])
    if not is_complex(v):
        return NotImplemented
    re, im = v.f
    if name == "exp":
        c, s = dom.cossin(im)
        m = dom.ONE if not re.d else dom.A("fn", ("exp", re))
        return cplx(m * c, m * s)
    if name in ("norm_sqr", "l2_norm_sqr"):
        return re * re + im * im
    if name in ("norm", "abs"):
        return dom.power(re * re + im * im, Fraction(1, 2))
    if name == "conj":
        return cplx(re, -im)
    if name == "scale":
        t = lift(a[1], True)
        return cplx(re * t, im * t)
    if name == "unscale":
        t = dom.recip(lift(a[1], True))
        return cplx(re * t, im * t)
    if name == "powi" or name == "powu":
        n = I.concrete(a[1])
        r = cplx(dom.ONE, dom.ZERO)
        for _ in range(abs(n)):
            r = arith(I, "mul", r, v)
        return r if n >= 0 else arith(I, "div", cplx(dom.ONE, dom.ZERO), r)
    if name == "inv":
        return arith(I, "div", cplx(dom.ONE, dom.ZERO), v)
    return NotImplemented


def bigm(I, name, a, info):
    """Methods of BigUint / BigInt (python integers, or symbolic integers)."""
    if name in ("zero",):
        return 0
    if name == "one":
        return 1
    if name == "ZERO":
        return 0
    if name in ("from_signed_bytes_le", "from_signed_bytes_be", "from_bytes_le", "from_bytes_be"):
        bs = [I.concrete(b, "byte") & 255 for b in I.slice_items(a[-1])]
        order = "little" if name.endswith("le") else "big"
        v = int.from_bytes(bytes(bs), order, signed="signed" in name)
        if len(a) == 2:
            sg = I.deref(a[0])
            if not isinstance(sg, Agg):
                return NotImplemented
            v = {"Minus": -v, "Plus": v, "NoSign": 0}[sg.name if isinstance(sg.name, str) else sg.name()]
        return v
    if name == "from_biguint" and len(a) == 2:
        sg, m = I.deref(a[0]), I.deref(a[1])
        if not isinstance(sg, Agg) or not isinstance(m, int):
            return NotImplemented
        return {"Minus": -m, "Plus": m, "NoSign": 0}[sg.name if isinstance(sg.name, str) else sg.name()]
    if name == "from_slice" or name == "new":
        return NotImplemented
    v = I.deref(a[0])
    if isinstance(v, Poly) and v.is_const():
        v = v.const()
    if not isinstance(v, int):
        return NotImplemented
    if name in ("to_signed_bytes_le", "to_signed_bytes_be", "to_bytes_le", "to_bytes_be"):
        signed = "signed" in name
        w = v if signed else abs(v)
        n = 1
        while not (-(1 << 8 * n - 1) <= w < 1 << 8 * n - 1 if signed else w < 1 << 8 * n):
            n += 1
        r = VecV(list(w.to_bytes(n, "little" if name.endswith("le") else "big", signed=signed)))
        if signed or "biguint" in info.path:
            return r
        return NotImplemented
    if name in ("div_floor", "mod_floor", "div_euclid", "rem_euclid", "checked_div", "checked_add", "checked_sub", "checked_mul", "modpow",
                "gcd", "lcm", "abs_sub", "div_rem", "div_mod_floor"):
        b = I.concrete(I.deref(a[1]))
        if name == "modpow":
            m = I.concrete(I.deref(a[2]))
            return pow(v, b, m) if b >= 0 and m > 0 else NotImplemented
        if name == "checked_add":
            return some(v + b)
        if name == "checked_sub":
            return NONE if "biguint" in info.path and b > v else some(v - b)
        if name == "checked_mul":
            return some(v * b)
        if name in ("gcd", "lcm"):
            import math
            return math.gcd(v, b) if name == "gcd" else math.lcm(v, b)
        if name == "checked_div" and b == 0:
            return NONE
        if name == "abs_sub":
            return max(v - b, 0)
        q, r = arith(I, "div", v, b), arith(I, "rem", v, b)
        if name == "checked_div":
            return some(q)
        if name == "div_rem":
            return tup(q, r)
        if name == "div_floor":
            return v // b
        if name == "mod_floor":
            return v % b
        if name == "div_mod_floor":
            return tup(v // b, v % b)
        e = r + abs(b) if r < 0 else r
        return e if name == "rem_euclid" else (v - e) // b
    if name == "abs":
        return abs(v)
    if name == "signum":
        return (v > 0) - (v < 0)
    if name == "is_negative":
        return v < 0
    if name == "is_positive":
        return v > 0
    if name in ("magnitude", "into_parts") and "bigint::BigInt" in info.path and name == "magnitude":
        return I.mkref(abs(v))
    if name in ("sign", "into_parts") and "bigint::BigInt" in info.path:
        t = I.P.types.get("num_bigint::bigint::Sign")
        if t is None:
            return NotImplemented
        w = "Plus" if v > 0 else "Minus" if v < 0 else "NoSign"
        sg = next((Agg(t, i, ()) for i, x in enumerate(t.variants) if x[0] == w), None)
        if sg is None:
            return NotImplemented
        return sg if name == "sign" else tup(sg, abs(v))
    if name in ("to_u64_digits", "to_u32_digits", "iter_u64_digits", "iter_u32_digits") and "biguint" in info.path:
        w, ds = (64 if "64" in name else 32), []
        while v:
            ds.append(v & ((1 << w) - 1))
            v >>= w
        return VecV(ds) if name.startswith("to_") else It("list", VecV(ds).items, 0, len(ds))
    if name == "to_biguint":
        return some(v) if v >= 0 else NONE
    if name == "to_bigint":
        return some(v)
    if name == "sqrt" and v >= 0:
        import math
        return math.isqrt(v)
    if name == "bit":
        return bool(v >> I.concrete(a[1], "bit index") & 1)
    if name == "set_bit":
        i = I.concrete(a[1], "bit index")
        b = I.truth(a[2])
        t = a[0]
        while isinstance(I.load(t), Ref):
            t = I.load(t)
        I.store(t, v | 1 << i if b else v & ~(1 << i))
        return UNIT
    if name == "count_ones":
        return bin(v).count("1")
    if name == "trailing_zeros":
        return opt(None if v == 0 else (v & -v).bit_length() - 1)
    if name == "trailing_ones":
        n = 0
        while v >> n & 1:
            n += 1
        return n
    if name == "bits":
        return v.bit_length()
    if name == "is_zero":
        return v == 0
    if name == "is_one":
        return v == 1
    if name == "pow":
        return v ** I.concrete(a[1])
    if name in ("is_even", "is_odd"):
        return (v % 2 == 0) == (name == "is_even")
    if name.startswith("to_u") or name.startswith("to_i"):
        b = INT_BITS.get(name[3:])
        if b:
            lo, hi = (0, (1 << b) - 1) if name[3] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return some(v) if lo <= v <= hi else NONE
    if name == "set_zero":
        I.store(a[0], 0)
        return UNIT
    if name == "set_one":
        I.store(a[0], 1)
        return UNIT
    return NotImplemented


# ---------------------------------------------------------------- text
def fmt_display(I, v, mode="d"):
    v = I.deref(v)
    if isinstance(v, StrV):
        if mode == "?":
            return StrV(('"',)) + v + StrV(('"',))
        return v
    if isinstance(v, bool):
        return StrV(("true" if v else "false",))
    if isinstance(v, int):
        return StrV((str(v),))
    if type(v) is float:
        if mode == "?":
            t = fp.shortest(v)
            return StrV((t if "." in t or "n" in t or "N" in t else t + ".0",))
        return StrV((fp.shortest(v),))
    if isinstance(v, NatV) and v.kind == "Args":
        return v.d
    if isinstance(v, NatV) and v.kind == "Escape":
        t = v.d.lit()
        return StrV((("escape", v.d),)) if t is None else StrV((escape_default(t),))
    if isinstance(v, NatV) and v.kind == "Box":
        return fmt_display(I, Ref(v.d), mode)
    if isinstance(v, NatV) and v.kind == "Bits" and all(b in (0, 1) for b in v.d):
        return StrV(("[%s]" % ", ".join("1" if b else "0" for b in v.d),))
    return StrV((("disp" if mode == "d" else "debug", v),))


def char_text(I, x):
    """A char, a text, or a reference to one, as text (integers are code points here)."""
    v = I.deref(x)
    if isinstance(v, int) and not isinstance(v, bool):
        return StrV((chr(v),))
    return fmt_display(I, x)


def is_char(t):
    while t is not None and t.k == "ref" and t.args:
        t = t.args[0]
    return t is not None and t.s == "char"


def text_bytes(t):
    out = []
    for p in t.parts:
        out.extend(p.encode("utf-8", "surrogateescape") if isinstance(p, str) else [Opaque(("textpart", p))])
    return out


def escape_default(t):
    """char::escape_default over a text."""
    out = []
    for c in t:
        e = {"\t": "\\t", "\r": "\\r", "\n": "\\n", "'": "\\'", '"': '\\"', "\\": "\\\\"}.get(c)
        if e is None:
            e = c if " " <= c <= "~" else "\\u{%x}" % ord(c)
        out.append(e)
    return "".join(out)


def decode_template(bs):
    out = []
    i = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode("utf-8"))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]).decode("utf-8"))
            i += ln
        else:
            f = {"arg": None}
            if n & 1:
                f["flags"] = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if n & 2:
                f["width"] = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                f["prec"] = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                f["arg"] = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(f)
    return out


def radix(n, v):
    f = {"lower_hex": "x", "upper_hex": "X", "octal": "o", "binary": "b"}.get(n)
    if f is not None and isinstance(v, int) and not isinstance(v, bool) and v >= 0:
        return StrV((format(v, f),))
    return StrV(((n, v),))


def padded(part, x, raw, mode):
    """A formatted argument with explicit width, precision or flags."""
    flags = part.get("flags", 0xE0000020)
    opts = tuple((o, part[o]) for o in ("flags", "width", "prec") if o in part)
    prec = part.get("prec")
    t = None
    if type(raw) is float and mode in ("d", "?"):
        t = fp.fixed(raw, prec) if prec is not None else x.lit()
    elif isinstance(raw, int) and not isinstance(raw, bool) and mode in ("d", "?", "lower_hex", "upper_hex", "octal", "binary"):
        t = x.lit()
    elif isinstance(raw, (StrV, bool)) and mode == "d" and x.lit() is not None:
        t = x.lit() if prec is None else x.lit()[:prec]
    if t is None or flags & 1 << 23:
        return StrV((("fmt", opts, x),))
    num = not isinstance(raw, (StrV, bool))
    if flags & 1 << 21 and num and not t.startswith("-"):
        t = "+" + t
    w = part.get("width")
    if w is not None and len(t) < w:
        if flags & 1 << 24 and num:
            sign = t[0] if t[0] in "+-" else ""
            t = sign + "0" * (w - len(t)) + t[len(sign):]
        else:
            al = flags >> 29 & 3
            pad = w - len(t)
            left = {0: 0, 1: pad, 2: pad // 2, 3: pad if num else 0}[al]
            fill = chr(flags & 0x1FFFFF) if flags & 0x1FFFFF else " "
            t = fill * left + t + fill * (pad - left)
    return StrV((t,))


def fmt_arguments(I, template, args):
    t = I.deref(template)
    if isinstance(t, StrV):
        bs = list(t.lit().encode("latin-1"))
    else:
        bs = list(I.slice_items(template))
    items = I.slice_items(args) if args is not None else ()
    s = StrV()
    k = 0
    for part in decode_template(bs):
        if isinstance(part, str):
            s = s + StrV((part,))
            continue
        n = part["arg"] if part["arg"] is not None else k
        k = n + 1
        a = items[n]
        x, raw, mode = a.d
        opts = tuple((o, part[o]) for o in ("flags", "width", "prec") if o in part)
        if opts and opts != (("flags", 0xE0000020),):
            x = padded(part, x, raw, mode)
        s = s + x
    return s


def panic_text(I, a):
    v = a[0] if a else None
    try:
        v = I.deref(v)
    except Exception:
        return "panic"
    if isinstance(v, NatV) and v.kind == "Args":
        v = v.d
    if isinstance(v, StrV):
        return "".join(p if isinstance(p, str) else "{..}" for p in v.parts)
    return "panic"


# ---------------------------------------------------------------- dispatch
def T(*names):
    return meth(TABLE, *names)


@T("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_display", "std::panicking::begin_panic",
   "core::panicking::panic_nounwind", "core::panicking::panic_explicit", "core::panicking::panic_str_2015",
   "core::panicking::unreachable_display", "std::rt::begin_panic", "core::panicking::panic_const::panic_const_div_by_zero",
   "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed")
def _(I, a, info):
    raise Panic(panic_text(I, a) if a else info.path.rsplit("::", 1)[-1])


@T("core::panicking::assert_failed")
def _(I, a, info):
    raise Panic("assertion failed: left == right")


@T("core::mem::drop", "core::ptr::drop_in_place")
def _(I, a, info):
    if info.path.endswith("drop_in_place"):
        I.drop(I.load(a[0]), a[0])
    else:
        I.drop(a[0], None)
    return UNIT


@T("core::mem::forget")
def _(I, a, info):
    return UNIT


@T("core::mem::take")
def _(I, a, info):
    v = I.load(a[0])
    t = info.targs[0] if info.targs else None
    I.store(a[0], default_of(I, t))
    return v


@T("core::mem::replace")
def _(I, a, info):
    v = I.load(a[0])
    I.store(a[0], a[1])
    return v


@T("core::mem::swap")
def _(I, a, info):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNIT


@T("core::mem::size_of")
def _(I, a, info):
    t = info.targs[0]
    s = t.size if t.size is not None else size_of(t)
    if s is None:
        raise Unsupported("size of %s" % t.s)
    return s


def size_of(t):
    if t.s in INT_BITS:
        return INT_BITS[t.s] // 8
    if t.s == "f64":
        return 8
    if t.s in ("bool",):
        return 1
    if t.k in ("ptr", "ref", "fnptr", "rawptr"):
        return 16 if t.elem is not None and (t.elem.k in ("slice", "str", "dyn") or t.elem.s in ("str",)) else 8
    if t.k == "struct" or t.k == "tuple":
        fs = [f for _, f in t.variants[0][2]] if t.variants else t.fields
        ss = [size_of(f) for f in fs]
        if None in ss:
            return None
        al = max([min(s, 8) for s in ss] + [1])
        # fields are packed in an order that needs no inner padding except at the end
        tot = sum(ss)
        return (tot + al - 1) // al * al
    if t.path in ("alloc::vec::Vec", "alloc::string::String"):
        return 24
    return None


@T("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "alloc::boxed::Box::<T>::pin", "core::num::nonzero::NonZero::<T>::get")
def _(I, a, info):
    return a[0]


@T("core::intrinsics::cold_path", "core::hint::spin_loop", "core::hint::assert_unchecked")
def _(I, a, info):
    return UNIT


@T("alloc::boxed::Box::<T>::new", "alloc::boxed::box_new")
def _(I, a, info):
    return NatV("Box", I.alloc(a[0]))


@T("alloc::boxed::Box::<T>::new_uninit")
def _(I, a, info):
    return NatV("Box", I.alloc(MOVED))


@T("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec", "alloc::slice::into_vec")
def _(I, a, info):
    v = a[0]
    if isinstance(v, NatV) and v.kind == "Box":
        v = I.get_obj(v.d)
    if isinstance(v, Ref):
        v = I.load(v)
    while isinstance(v, Agg) and len(v.f) >= 1:
        v = [x for x in v.f if x is not MOVED][0] if any(x is not MOVED for x in v.f) else MOVED
    if isinstance(v, VecV):
        return v
    raise Unsupported("vec! from %s" % short(v))


@T("alloc::boxed::Box::<T>::leak", "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T>::into_raw", "alloc::boxed::Box::<T, A>::into_raw")
def _(I, a, info):
    return Ref(a[0].d)


@T("alloc::boxed::Box::<T>::from_raw")
def _(I, a, info):
    return NatV("Box", a[0].obj)


# ---- Rc
@T("alloc::rcs::rc::Rc::<T>::new")
def _(I, a, info):
    return rc_new(I, a[0])


@T("alloc::rcs::rc::Rc::<T>::into_raw", "alloc::rcs::rc::Rc::<T, A>::into_raw")
def _(I, a, info):
    return Ref(a[0].d, (2,))


@T("alloc::rcs::rc::Rc::<T>::as_ptr", "alloc::rcs::rc::Rc::<T, A>::as_ptr")
def _(I, a, info):
    return Ref(I.deref(a[0]).d, (2,))


@T("alloc::rcs::rc::Rc::<T>::from_raw")
def _(I, a, info):
    return NatV("Rc", rc_of_ptr(I, a[0]))


@T("alloc::rcs::rc::Rc::<T>::increment_strong_count")
def _(I, a, info):
    rc_inc(I, rc_of_ptr(I, a[0]))
    return UNIT


@T("alloc::rcs::rc::Rc::<T>::decrement_strong_count")
def _(I, a, info):
    rc_drop(I, rc_of_ptr(I, a[0]))
    return UNIT


@T("alloc::rcs::rc::Rc::<T, A>::downgrade")
def _(I, a, info):
    rc = rc_at(I, a[0])
    weak_inc(I, rc.d)
    return NatV("Weak", rc.d)


def rc_at(I, r):
    """The Rc a reference leads to, without looking inside it."""
    while isinstance(r, Ref):
        v = I.load(r)
        if isinstance(v, NatV) and v.kind == "Rc":
            return v
        if isinstance(v, Agg) and len(v.f) == 1:      # ManuallyDrop
            r = Ref(r.obj, r.path + (0,))
            continue
        r = v
    if isinstance(r, NatV) and r.kind == "Rc":
        return r
    raise Unsupported("reference count of %s" % short(r))


@T("alloc::rcs::rc::Rc::<T, A>::weak_count")
def _(I, a, info):
    return rc_cell(I, rc_at(I, a[0]).d).f[1]


@T("alloc::rcs::rc::Rc::<T, A>::strong_count")
def _(I, a, info):
    return rc_cell(I, rc_at(I, a[0]).d).f[0]


@T("alloc::rcs::rc::Rc::<T, A>::ptr_eq")
def _(I, a, info):
    return rc_at(I, a[0]).d == rc_at(I, a[1]).d


@T("alloc::rcs::rc::Rc::<T, A>::get_mut")
def _(I, a, info):
    rc = rc_at(I, a[0])
    c = rc_cell(I, rc.d)
    if I.truth(I.compare("Eq", c.f[0], 1)) and I.truth(I.compare("Eq", c.f[1], 0)):
        return some(Ref(rc.d, (2,)))
    return NONE


@T("alloc::rcs::rc::Rc::<T, A>::make_mut")
def _(I, a, info):
    r = a[0]
    rc = rc_at(I, r)
    c = rc_cell(I, rc.d)
    if I.truth(I.compare("Eq", c.f[0], 1)) and I.truth(I.compare("Eq", c.f[1], 0)):
        return Ref(rc.d, (2,))
    n = rc_new(I, clone_value(I, c.f[2]))
    rc_drop(I, rc.d)
    I.store(r, n)
    return Ref(n.d, (2,))


@T("alloc::rcs::rc::Rc::<T, A>::try_unwrap", "alloc::rcs::rc::Rc::<T, A>::into_inner", "alloc::rcs::rc::Rc::<T, A>::unwrap_or_clone")
def _(I, a, info):
    rc = a[0]
    c = rc_cell(I, rc.d)
    nm = info.path.rsplit("::", 1)[-1]
    if I.truth(I.compare("Eq", c.f[0], 1)):
        I.heap[rc.d] = Agg(None, 0, (0, c.f[1], MOVED))
        I.trace.append(("rc", rc.d, -1))
        return {"try_unwrap": ok, "into_inner": some}.get(nm, lambda x: x)(c.f[2])
    if nm == "try_unwrap":
        return err(rc)
    rc_drop(I, rc.d)
    return NONE if nm == "into_inner" else clone_value(I, c.f[2])


@T("alloc::rcs::rc::Weak::<T>::into_raw", "alloc::rcs::rc::Weak::<T, A>::into_raw")
def _(I, a, info):
    return Ref(a[0].d, (2,))


def weak_at(I, w):
    while isinstance(w, Ref):
        w = I.load(w)
        if is_path(w, "core::mem::manually_drop::ManuallyDrop"):
            w = w.f[0]
    if isinstance(w, NatV) and w.kind == "Weak":
        return w
    raise Unsupported("weak reference %s" % short(w))


@T("alloc::rcs::rc::Weak::<T, A>::as_ptr", "alloc::rcs::rc::Weak::<T>::as_ptr")
def _(I, a, info):
    return Ref(weak_at(I, a[0]).d, (2,))


@T("alloc::rcs::rc::Weak::<T, A>::strong_count", "alloc::rcs::rc::Weak::<T, A>::weak_count")
def _(I, a, info):
    c = rc_cell(I, weak_at(I, a[0]).d)
    if info.path.endswith("strong_count"):
        return c.f[0]
    return c.f[1] if I.truth(I.compare("Gt", c.f[0], 0)) else 0


@T("alloc::rcs::rc::Weak::<T>::from_raw", "alloc::rcs::rc::Weak::<T, A>::from_raw")
def _(I, a, info):
    return NatV("Weak", rc_of_ptr(I, a[0]))


@T("alloc::rcs::rc::Weak::<T, A>::upgrade", "alloc::rcs::rc::Weak::<T>::upgrade")
def _(I, a, info):
    w = weak_at(I, a[0])
    if not I.truth(I.compare("Gt", rc_cell(I, w.d).f[0], 0)):
        return NONE
    rc_inc(I, w.d)
    return some(NatV("Rc", w.d))


# ---- cells
@T("core::cell::RefCell::<T>::new")
def _(I, a, info):
    return NatV("RefCell", (0, a[0]))


@T("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut")
def _(I, a, info):
    r = a[0]
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    v = I.load(r)
    if isinstance(v, NatV) and v.kind in ("Rc", "Box"):
        r = nat_deref(I, v)
    return cell_borrow(I, r, info.path.endswith("mut"))


@T("core::cell::RefCell::<T>::try_borrow", "core::cell::RefCell::<T>::try_borrow_mut")
def _(I, a, info):
    try:
        return ok(cell_borrow(I, a[0], info.path.endswith("mut")))
    except Panic:
        return err(Opaque(("BorrowError",)))


@T("core::cell::RefCell::<T>::replace")
def _(I, a, info):
    v = cell_check(I, a[0])
    I.store(a[0], NatV("RefCell", (0, a[1])))
    return v.d[1]


@T("core::cell::RefCell::<T>::take")
def _(I, a, info):
    v = cell_check(I, a[0])
    I.store(a[0], NatV("RefCell", (0, default_of(I, info.targs[0]))))
    return v.d[1]


@T("core::cell::RefCell::<T>::replace_with")
def _(I, a, info):
    g = cell_borrow(I, a[0], True)
    new = I.call_callable(a[1], [g.d])
    old = I.load(g.d)
    I.store(g.d, new)
    release_guard(I, g)
    return old


@T("core::cell::RefCell::<T>::get_mut", "core::cell::Cell::<T>::get_mut", "core::cell::RefCell::<T>::as_ptr")
def _(I, a, info):
    return Ref(a[0].obj, a[0].path + ("v",))


@T("core::cell::RefCell::<T>::into_inner")
def _(I, a, info):
    return a[0].d[1]


@T("core::cell::RefCell::<T>::swap")
def _(I, a, info):
    x, y = cell_check(I, a[0]), cell_check(I, a[1])
    I.store(a[0], NatV("RefCell", (0, y.d[1])))
    I.store(a[1], NatV("RefCell", (0, x.d[1])))
    return UNIT


@T("core::cell::Cell::<T>::new")
def _(I, a, info):
    return NatV("Cell", a[0])


@T("core::cell::Cell::<T>::get")
def _(I, a, info):
    return I.load(a[0]).d


@T("core::cell::Cell::<T>::set")
def _(I, a, info):
    I.store(a[0], NatV("Cell", a[1]))
    return UNIT


@T("core::cell::Cell::<T>::replace")
def _(I, a, info):
    v = I.load(a[0]).d
    I.store(a[0], NatV("Cell", a[1]))
    return v


@T("core::cell::Cell::<T>::take")
def _(I, a, info):
    v = I.load(a[0]).d
    I.store(a[0], NatV("Cell", default_of(I, info.targs[0])))
    return v


@T("core::cell::RefMut::<'b, T>::map", "core::cell::Ref::<'b, T>::map")
def _(I, a, info):
    return NatV(a[0].kind, I.call_callable(a[1], [a[0].d]))


# ---- thread locals
def key_ref(I, k):
    if isinstance(k, Ref):
        k = I.load(k)
    if not (isinstance(k, NatV) and k.kind == "Key"):
        raise Unsupported("thread local %s" % short(k))
    name = k.d
    if name not in I.globals:
        init = I.cfg.get("globals", {}).get(name)
        v = None
        if init is not None:
            v = init(I)
        else:
            for p, fs in I.P.by_path.items():
                if p.startswith(name + "::") and p.endswith("__rust_std_internal_init_fn"):
                    v = I.call_fn(fs[0], [UNIT] * fs[0].argc)
        if v is None:
            raise Unsupported("initial value of thread local %s" % name)
        I.globals[name] = I.alloc(v, "g:" + name.split("::")[-1])
    return Ref(I.globals[name])


@T("std::thread::local::LocalKey::<T>::with")
def _(I, a, info):
    return I.call_callable(a[1], [key_ref(I, a[0])])


@T("std::thread::local::LocalKey::<T>::try_with")
def _(I, a, info):
    return ok(I.call_callable(a[1], [key_ref(I, a[0])]))


@T("std::thread::local::LocalKey::<core::cell::RefCell<T>>::with_borrow", "std::thread::local::LocalKey::<core::cell::RefCell<T>>::with_borrow_mut")
def _(I, a, info):
    g = cell_borrow(I, key_ref(I, a[0]), info.path.endswith("mut"))
    r = I.call_callable(a[1], [g.d])
    release_guard(I, g)
    return r


@T("std::thread::local::LocalKey::<core::cell::RefCell<T>>::replace", "std::thread::local::LocalKey::<core::cell::RefCell<T>>::set")
def _(I, a, info):
    r = key_ref(I, a[0])
    v = cell_check(I, r)
    I.store(r, NatV("RefCell", (0, a[1])))
    return v.d[1] if info.path.endswith("replace") else UNIT


# ---- random numbers
@T("rand::rngs::thread::rng")
def _(I, a, info):
    I.trace.append(("entropy",))
    return NatV("Rng", ("thread",))


@T("rand_core::seedable_rng::SeedableRng::from_rng", "rand_core::seedable_rng::SeedableRng::from_seed",
   "rand_core::seedable_rng::SeedableRng::seed_from_u64", "rand_core::seedable_rng::SeedableRng::from_os_rng")
def _(I, a, info):
    nm = info.path.rsplit("::", 1)[-1]
    x = I.deref(a[0]) if a else None
    return NatV("Rng", (nm, x, I.fresh("rng") if nm != "seed_from_u64" else ""))


@T("rand::rng::RngExt::random", "rand::rng::Rng::random")
def _(I, a, info):
    t = info.dest_ty
    g = I.deref(a[0]) if a else None
    while isinstance(g, NatV) and g.kind in ("RefMut", "RefG") and isinstance(g.d, Ref):
        g = I.deref(g.d)
    I.trace.append(("random", t.s if t is not None else None, g))
    if t is not None and t.k == "float":
        return dom.A("unit", I.fresh("r"))
    if t is not None and t.s == "bool":
        return Cond("atom", ("randbool", I.fresh("r")))
    raise Unsupported("random value of type %s" % (t.s if t is not None else "?"))


@T("rand::rng::RngExt::random_range", "rand::rng::Rng::random_range")
def _(I, a, info):
    g = I.deref(a[0])
    while isinstance(g, NatV) and g.kind in ("RefMut", "RefG") and isinstance(g.d, Ref):
        g = I.deref(g.d)
    r = I.deref(a[1])
    if not (isinstance(r, Agg) and r.ty is not None and r.ty.path in (RANGE, RANGEI)):
        raise Unsupported("random value in %s" % short(r))
    lo, hi = r.f[0], r.f[1]
    incl = r.ty.path == RANGEI
    if not I.truth(I.compare("Le" if incl else "Lt", lo, hi)):
        raise Panic("cannot sample empty range")
    flt = type(lo) is float or isinstance(lo, Poly) and lo.flt
    if type(lo) is float and not (fp.PRED["is_finite"](hi - lo)):
        raise Panic("random range is not finite")
    I.trace.append(("range", lo, hi, incl, g))
    v = A_draw(I, flt)
    if not flt or not type(lo) is float:
        I.assume("lt0", v - lift(lo), False)
        if incl:
            I.assume("lt0", lift(hi) - v, False)
    return v


def A_draw(I, flt):
    return dom.A("draw", I.fresh("d"), flt)


# ---- fmt
@T("core::fmt::Arguments::<'a>::new")
def _(I, a, info):
    return NatV("Args", fmt_arguments(I, a[0], a[1]))


@T("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, a, info):
    return NatV("Args", I.deref(a[0]))


@T("core::fmt::rt::Argument::<'_>::new_display")
def _(I, a, info):
    if info.targs and is_char(info.targs[-1]):
        s = char_text(I, a[0])
        return NatV("Arg", (s, s, "d"))
    return NatV("Arg", (fmt_display(I, a[0], "d"), I.deref(a[0]), "d"))


@T("core::fmt::rt::Argument::<'_>::new_debug")
def _(I, a, info):
    return NatV("Arg", (fmt_display(I, a[0], "?"), I.deref(a[0]), "?"))


for _n in ("lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):
    TABLE["core::fmt::rt::Argument::<'_>::new_" + _n] = (lambda n: lambda I, a, info: NatV("Arg", (radix(n, I.deref(a[0])), I.deref(a[0]), n)))(_n)


@T("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(I, a, info):
    return a[0].d


@T("<alloc::string::String as core::fmt::Write>::write_str", "alloc::string::String::push_str")
def _(I, a, info):
    r = a[0]
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    I.store(r, I.load(r) + I.deref(a[1]))
    return ok(UNIT) if info.path.endswith("write_str") else UNIT


@T("core::fmt::Write::write_fmt", "<alloc::string::String as core::fmt::Write>::write_fmt")
def _(I, a, info):
    r = a[0]
    v = I.load(r)
    if isinstance(v, StrV):
        I.store(r, v + a[1].d)
        return ok(UNIT)
    return NotImplemented


@T("alloc::string::String::push", "<alloc::string::String as core::fmt::Write>::write_char")
def _(I, a, info):
    c = a[1]
    s = StrV((c if isinstance(c, str) else chr(I.concrete(c)),))
    I.store(a[0], I.load(a[0]) + s)
    return ok(UNIT) if info.path.endswith("write_char") else UNIT


@T("core::str::<impl str>::chars", "core::str::<impl str>::char_indices", "core::str::<impl str>::bytes")
def _(I, a, info):
    t = cmodels.to_text(I, a[0]).lit()
    if t is None:
        raise Unsupported("characters of symbolic text")
    if info.path.endswith("bytes"):
        xs = tuple(t.encode("utf-8", "surrogateescape"))
    elif info.path.endswith("chars"):
        xs = tuple(ord(c) for c in t)
    else:
        xs, k = [], 0
        for c in t:
            xs.append(tup(k, ord(c)))
            k += len(c.encode("utf-8", "surrogateescape"))
    return It("list", tuple(xs), 0, len(xs))


@T("core::char::methods::<impl char>::escape_default")
def _(I, a, info):
    return NatV("Escape", StrV((chr(I.concrete(a[0], "character")),)))


@T("alloc::string::String::new", "alloc::string::String::with_capacity")
def _(I, a, info):
    return StrV()


@T("alloc::string::String::from_utf8", "core::str::converts::from_utf8")
def _(I, a, info):
    v = I.deref(a[0])
    if isinstance(v, StrV):
        return ok(v)
    bs = I.slice_items(a[0])
    if all(isinstance(x, int) for x in bs):
        try:
            return ok(StrV((bytes(bs).decode("utf-8"),)))
        except UnicodeDecodeError:
            return err(Opaque(("utf8error",)))
    raise Unsupported("text from symbolic bytes")


@T("alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes", "alloc::string::String::as_str", "alloc::string::String::into_bytes",
   "core::str::<impl str>::as_str", "alloc::string::String::into_boxed_str")
def _(I, a, info):
    return I.deref(a[0])


@T("core::str::<impl str>::len", "alloc::string::String::len")
def _(I, a, info):
    return I.slice_len(I.deref(a[0]))


@T("core::str::<impl str>::is_empty", "alloc::string::String::is_empty")
def _(I, a, info):
    v = I.deref(a[0])
    if v.lit() is not None:
        return v.lit() == ""
    if any(isinstance(p, str) for p in v.parts):
        return False
    return I.compare("Eq", I.slice_len(v), 0)


# ---- bit vectors
def bits_ref(I, r):
    return nat_at(I, r, "Bits")


@T("bitvec::array::BitArray::<A, O>::new")
def _(I, a, info):
    return NatV("Bits", ())


@T("bitvec::array::ops::<impl core::ops::index::Index<Idx> for bitvec::array::BitArray<A, O>>::index",
   "bitvec::array::ops::<impl core::ops::index::IndexMut<Idx> for bitvec::array::BitArray<A, O>>::index_mut")
def _(I, a, info):
    return a[0]


@T("bitvec::vec::BitVec::<T, O>::from_bitslice")
def _(I, a, info):
    return I.deref(a[0])


@T("bitvec::vec::BitVec::<T, O>::new", "bitvec::vec::api::<impl bitvec::vec::BitVec<T, O>>::new", "bitvec::vec::api::<impl bitvec::vec::BitVec<T, O>>::with_capacity")
def _(I, a, info):
    return NatV("Bits", ())


def bitm(I, name, a, info):
    if "BitRef" in info.path and name in ("commit", "set", "replace", "swap"):
        r = a[0]
        while isinstance(I.load(r), Ref):
            r = I.load(r)
        old = I.load(r)
        if name == "swap":
            r2 = a[1]
            while isinstance(I.load(r2), Ref):
                r2 = I.load(r2)
            new = I.load(r2)
            I.store(r2, old)
            I.store(r, new)
            return UNIT
        I.store(r, a[1])
        return old if name == "replace" else UNIT
    if name in ("deref", "deref_mut", "as_bitslice", "as_mut_bitslice", "index", "index_mut", "iter", "get", "get_mut", "len", "is_empty", "set", "push",
                "resize", "clear", "replace", "first", "last", "to_bitvec", "truncate", "fill", "get_unchecked", "count_ones", "any", "not_any", "pop",
                "extend", "append", "iter_mut", "reserve", "swap", "is_full", "none"):
        r, v = bits_ref(I, a[0])
        if name in ("deref", "deref_mut", "as_bitslice", "as_mut_bitslice"):
            return r
        if name == "len":
            return len(v.d)
        if name == "is_empty":
            return len(v.d) == 0
        if name in ("get", "get_mut"):
            i = I.concrete(a[1], "result index")
            return some(Ref(r.obj, r.path + (i,))) if 0 <= i < len(v.d) else NONE
        if name in ("set", "replace"):
            i = I.concrete(a[1], "result index")
            if i >= len(v.d):
                raise Panic("bit index out of bounds")
            old = v.d[i]
            I.store(Ref(r.obj, r.path + (i,)), a[2])
            return UNIT if name == "set" else old
        if name == "push":
            I.store(r, NatV("Bits", v.d + (a[1],)))
            return UNIT
        if name == "resize":
            n = I.concrete(a[1], "length")
            I.store(r, NatV("Bits", v.d[:n] + (a[2],) * (n - len(v.d))))
            return UNIT
        if name == "truncate":
            n = I.concrete(a[1], "length")
            I.store(r, NatV("Bits", v.d[:n]))
            return UNIT
        if name == "clear":
            I.store(r, NatV("Bits", ()))
            return UNIT
        if name == "fill":
            I.store(r, NatV("Bits", (a[1],) * len(v.d)))
            return UNIT
        if name == "reserve":
            return UNIT
        if name in ("index",):
            i = I.concrete(a[1], "result index")
            if i >= len(v.d):
                raise Panic("bit index out of bounds")
            return Ref(r.obj, r.path + (i,))
        if name in ("iter", "iter_mut"):
            return It("slice", r, 0, len(v.d))
        if name in ("first", "last"):
            return some(Ref(r.obj, r.path + (0 if name == "first" else len(v.d) - 1,))) if v.d else NONE
        if name == "get_unchecked":
            i = I.concrete(a[1], "result index")
            if i >= len(v.d):
                raise UB("bit index out of bounds")
            return Ref(r.obj, r.path + (i,))
        if name == "pop":
            if not v.d:
                return NONE
            I.store(r, NatV("Bits", v.d[:-1]))
            return some(v.d[-1])
        if name in ("any", "not_any", "none", "count_ones") and all(isinstance(b, bool) for b in v.d):
            return sum(v.d) if name == "count_ones" else any(v.d) if name == "any" else not any(v.d)
    return NotImplemented


# ---- matrices
def matm(I, name, a, info):
    if name == "from" and len(a) == 1 and isinstance(a[0], VecV) and all(isinstance(x, VecV) for x in a[0].items):
        return NatV("Mat", tuple(tuple(x.items) for x in a[0].items))
    h = matmodels.gridm(I, name, a, info)
    if h is not NotImplemented:
        return h
    def mat(x):
        x = I.deref(x)
        if isinstance(x, NatV) and x.kind == "Mat":
            return x
        raise Unsupported("matrix %s" % short(x))
    if name in ("eye",):
        n = I.concrete(a[0])
        z, o = cplx(dom.ZERO, dom.ZERO), cplx(dom.ONE, dom.ZERO)
        return NatV("Mat", tuple(tuple(o if i == j else z for j in range(n)) for i in range(n)))
    if name == "ncols":
        m = mat(a[0])
        return len(m.d[0]) if m.d else 0
    if name == "nrows":
        return len(mat(a[0]).d)
    if name == "row":
        r = a[0]
        while isinstance(I.load(r), Ref):
            r = I.load(r)
        m = mat(r)
        i = I.concrete(a[1])
        if i >= len(m.d):
            raise Panic("ndarray: index out of bounds")
        return NatV("Mat", (m.d[i],))
    if name == "clone":
        return mat(a[0])
    if name in ("deref", "deref_mut"):
        r = a[0]
        v = I.load(r)
        if isinstance(v, Ref):
            return v
        if isinstance(v, NatV) and v.kind == "MatSlice":
            return r
        return r
    if name == "slice_mut":
        info_ = I.deref(a[1])
        return NatV("MatSlice", (a[0], info_))
    if name == "assign":
        s = I.deref(a[0])
        if not (isinstance(s, NatV) and s.kind == "MatSlice"):
            raise Unsupported("assign to %s" % short(s))
        src = mat(a[1])
        tgt = s.d[0]
        while isinstance(I.load(tgt), Ref):
            tgt = I.load(tgt)
        m = I.load(tgt)
        rows = [list(r) for r in m.d]
        los = slice_starts(I, s.d[1])
        h, w = len(src.d), len(src.d[0])
        if len(rows) - los[0] != h or len(rows[0]) - los[1] != w:
            raise Panic("ndarray: could not broadcast array")
        for i in range(h):
            for j in range(w):
                rows[los[0] + i][los[1] + j] = src.d[i][j]
        I.store(tgt, NatV("Mat", tuple(map(tuple, rows))))
        return UNIT
    return NotImplemented


def slice_starts(I, v):
    while isinstance(v, Agg) and not (v.ty is not None and v.ty.k == "array"):
        c = [x for x in v.f if isinstance(x, (Agg, VecV))]
        if not c:
            break
        v = c[0]
        if isinstance(v, VecV):
            break
    if isinstance(v, VecV):
        out = []
        for x in v.items:
            x = I.deref(x)
            if isinstance(x, NatV) and x.kind == "SliceElem":
                out.append(x.d)
            else:
                raise Unsupported("slice element %s" % short(x))
        return out
    raise Unsupported("slice info %s" % short(v))


@T("<ndarray::slice::SliceInfoElem as core::convert::From<core::ops::range::RangeFrom<usize>>>::from")
def _(I, a, info):
    return NatV("SliceElem", I.concrete(a[0].f[0]))


@T("ndarray::slice::SliceInfo::<T, Din, Dout>::new_unchecked")
def _(I, a, info):
    return a[0]


@T("ndarray::slice::SliceNextDim::next_in_dim", "ndarray::slice::SliceNextDim::next_out_dim")
def _(I, a, info):
    return UNIT


# ---- pointers
@T("core::ptr::null", "core::ptr::null_mut")
def _(I, a, info):
    return 0


def ptrm(I, name, a, info):
    if name in ("cast", "cast_mut", "cast_const", "as_ptr", "as_mut_ptr"):
        return a[0]
    if name == "is_null":
        v = a[0]
        if isinstance(v, (Ref, NatV, StrV)):
            return False
        if isinstance(v, (int, Poly)):
            return I.compare("Eq", v, 0)
        if isinstance(v, Opaque):
            return Cond("atom", ("null", v.key))
        return NotImplemented
    el = info.targs[0] if info.targs else None
    esz = el.size if el is not None else None
    if name in ("add", "wrapping_add", "offset", "wrapping_offset"):
        return ptr_add(I, a[0], a[1], esz)
    if name in ("sub", "wrapping_sub"):
        n = a[1]
        return ptr_add(I, a[0], -n, esz)
    if name in ("byte_add", "wrapping_byte_add", "byte_offset"):
        return ptr_add(I, a[0], a[1], 1)
    if name in ("byte_sub", "wrapping_byte_sub"):
        return ptr_add(I, a[0], -a[1], 1)
    if name in ("read", "read_unaligned"):
        return peek(I, a[0], el)
    if name in ("write", "write_unaligned"):
        poke(I, a[0], a[1], el)
        return UNIT
    if name in ("copy_from_nonoverlapping", "copy_from"):
        copy_nonoverlapping(I, a[1], a[0], a[2], el)
        return UNIT
    if name in ("copy_to_nonoverlapping", "copy_to"):
        copy_nonoverlapping(I, a[0], a[1], a[2], el)
        return UNIT
    if name in ("as_ref", "as_mut"):
        v = a[0]
        if isinstance(v, int) and v == 0:
            return NONE
        return some(v)
    if name in ("addr", "expose_provenance"):
        return a[0]
    return NotImplemented


TRAIT_OPS = {}
for _g, _ts in (("arith", ("Add", "Sub", "Mul", "Div", "Rem", "Neg", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign")),
                ("bit", ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Not", "BitAndAssign", "BitOrAssign", "BitXorAssign", "ShlAssign", "ShrAssign"))):
    for _t in _ts:
        TRAIT_OPS["core::ops::%s::%s" % (_g, _t)] = _t

PREFIXES = (
    ("core::slice::<impl [T]>::", "vec"), ("alloc::vec::Vec::<T, A>::", "vec"), ("alloc::vec::Vec::<T>::", "vec"), ("alloc::slice::<impl [T]>::", "vec"),
    ("core::array::<impl [T; N]>::", "vec"),
    ("std::collections::hash::map::HashMap::<", "map"), ("std::collections::hash::set::HashSet::<", "set"),
    ("std::collections::hash::map::Entry::<", "entry"),
    ("core::f64::<impl f64>::", "f64"), ("std::f64::<impl f64>::", "f64"), ("num_complex::Complex::<T>::", "complex"),
    ("num_complex::complex_float::ComplexFloat::", "complex"),
    ("num_bigint::biguint::BigUint::", "big"), ("num_bigint::bigint::BigInt::", "big"),
    ("bitvec::", "bits"), ("ndarray::", "mat"), ("core::ptr::mut_ptr::<impl *mut T>::", "ptr"), ("core::ptr::const_ptr::<impl *const T>::", "ptr"),
    ("core::ptr::non_null::NonNull::<T>::", "ptr"),
)

ITER_TRAITS = {"core::iter::traits::iterator::Iterator", "core::iter::traits::double_ended::DoubleEndedIterator",
               "core::iter::traits::exact_size::ExactSizeIterator"}


def native(v):
    return isinstance(v, (NatV, VecV, Poly, StrV, int, Cond))


def generic(I, fn, path, trait, targs, args, info):
    p = fn.p if fn is not None else path
    if I.intercept and p in I.intercept:
        return I.intercept[p](I, args)
    if fn is not None and fn.crate in LOCAL and fn.kind not in ("shim",) and not p.startswith("<T as"):
        f = I.P.resolve(fn)
        if f is not None and f.local:
            return NotImplemented
    name = path.rsplit("::", 1)[-1]
    h = stdmodels.extra(I, p, path, trait, name, args, info)
    if h is not NotImplemented:
        return h
    if "c_str" in p or "io::" in p or trait is not None and ("io::" in trait):
        h = cmodels.call(I, p, trait, name, args, info)
        if h is not NotImplemented:
            return h
    if p.startswith("alloc::vec::drain::Drain") and name in ("as_slice", "as_ref") or p.startswith(("core::slice::iter::Iter", "alloc::vec::into_iter::IntoIter")) and name in ("as_slice", "as_ref"):
        v = I.deref(args[0])
        if isinstance(v, NatV) and v.kind == "It" and v.d[0] == "list":
            return I.mkref(VecV(I.deref(x) if "slice::iter::Iter" in p else x for x in v.d[1][v.d[2]:v.d[3]]))
        raise Unsupported("remaining slice of %s" % short(v))
    if trait in ITER_TRAITS or p.startswith("core::iter::adapters::peekable::Peekable"):
        if trait in ITER_TRAITS and isinstance(args[0], Ref):
            v = I.load(args[0]) if args[0].rng is None else None
            if user_iter(v) and fn is not None and I.P.resolve(fn) is not None and name in ("next", "next_back"):
                return NotImplemented
        return iter_dispatch(I, name, args, info)
    if trait == "core::iter::traits::collect::IntoIterator":
        return to_it(I, args[0])
    if trait == "core::iter::traits::collect::FromIterator":
        return collect(I, it_all(I, to_it(I, args[0])), info.dest_ty, info)
    if trait == "core::iter::traits::collect::Extend":
        r = args[0]
        while isinstance(I.load(r), Ref):
            r = I.load(r)
        v = I.load(r)
        if isinstance(v, VecV):
            xs = it_all(I, to_it(I, args[1]))
            if xs and isinstance(xs[0], Ref) and "Extend<&" in p:
                xs = [I.load(x) for x in xs]
            v = I.load(r)
            I.store(r, VecV(v.items + tuple(xs)))
            return UNIT
        if isinstance(v, NatV) and v.kind == "Map":
            return mapm(I, "extend", args, info)
        if isinstance(v, NatV) and v.kind == "Set":
            return setm(I, "extend", args, info)
        if isinstance(v, StrV):
            w = I.deref(args[1])
            if "alloc::vec::Vec" in p and isinstance(w, (StrV, VecV)):
                v = v + cmodels.to_text(I, args[1])
            else:
                for x in it_all(I, to_it(I, args[1])):
                    if "alloc::vec::Vec" in p:
                        v = v + cmodels.bytes_text([I.deref(x)])
                    else:
                        v = v + char_text(I, x)
            I.store(r, v)
            return UNIT
    if trait in TRAIT_OPS:
        return operator(I, TRAIT_OPS[trait], name, fn, path, args, info)
    if trait == "core::clone::Clone" and name == "clone":
        v = I.load(args[0]) if isinstance(args[0], Ref) and args[0].rng is None else args[0]
        return clone_value(I, v)
    if trait == "core::clone::Clone" and name == "clone_from":
        I.store(args[0], clone_value(I, I.load(args[1])))
        return UNIT
    if trait == "core::cmp::PartialEq":
        if native(I.deref(args[0])) or fn is None or "core::" in p or "alloc::" in p or "num_" in p:
            a, b = args
            r = I.deref(a)
            if isinstance(r, Agg) and r.ty is not None and r.ty.path and r.ty.path.split("::")[0] in LOCAL:
                f = find_impl(I, r, "core::cmp::PartialEq", "eq")
                if f is not None:
                    e = I.call_fn(f, [strip(I, a), strip(I, b)])
                    return e if name == "eq" else I.bnot(e)
            e = eq_value(I, a, b)
            return e if name == "eq" else I.bnot(e)
        return NotImplemented
    if trait in ("core::cmp::PartialOrd", "core::cmp::Ord"):
        if name in ("lt", "le", "gt", "ge"):
            a, b = I.deref(args[0]), I.deref(args[1])
            if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
                return I.compare({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], a, b)
            c = cmp_value(I, a, b)
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[name]
        if name == "cmp":
            return ordering(I, cmp_value(I, args[0], args[1]))
        if name == "partial_cmp":
            a, b = I.deref(args[0]), I.deref(args[1])
            if any(isinstance(x, float) and x != x for x in (a, b)):
                return NONE
            return some(ordering(I, cmp_value(I, a, b)))
        if name in ("max", "min"):
            c = cmp_value(I, args[0], args[1])
            if name == "max":
                return args[0] if c > 0 else args[1]
            return args[0] if c <= 0 else args[1]
        if name == "clamp":
            if cmp_value(I, args[0], args[1]) < 0:
                return args[1]
            return args[2] if cmp_value(I, args[0], args[2]) > 0 else args[0]
    if trait in ("core::ops::index::Index", "core::ops::index::IndexMut"):
        v = I.deref(args[0])
        if isinstance(v, Agg) and not (isinstance(args[0], Ref) and args[0].rng):
            return NotImplemented
        return index(I, args[0], args[1], info)
    if trait in ("core::ops::deref::Deref", "core::ops::deref::DerefMut"):
        return deref_trait(I, args[0])
    if trait in ("core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow", "core::borrow::BorrowMut"):
        return deref_trait(I, args[0])
    if trait == "core::default::Default":
        t = info.dest_ty if info.dest_ty is not None else (targs[0] if targs else None)
        return default_of(I, t)
    if trait == "num_traits::identities::Zero" or trait == "num_traits::identities::One":
        if name in ("zero", "one"):
            n = 1 if name == "one" else 0
            if "Complex" in p:
                return cplx(lift(n, True), dom.ZERO)
            if "f64" in p or (info.dest_ty is not None and info.dest_ty.k == "float"):
                return lift(n, True)
            return n
        if name in ("is_zero", "is_one"):
            v = I.deref(args[0])
            n = 1 if name == "is_one" else 0
            if is_complex(v):
                return I.boolop("BitAnd", I.compare("Eq", v.f[0], n), I.compare("Eq", v.f[1], 0))
            return I.compare("Eq", v, n)
        if name in ("set_zero", "set_one"):
            return NotImplemented
    if trait == "num_traits::cast::ToPrimitive":
        return bigm(I, name, args, info)
    if trait == "core::convert::From" and p.startswith("ndarray::"):
        h = matm(I, "from", args, info)
        if h is not NotImplemented:
            return h
    if trait in ("core::convert::From", "core::convert::Into"):
        return convert(I, args[0], info.dest_ty, fn, path)
    if trait in ("core::convert::TryFrom", "core::convert::TryInto"):
        return try_convert(I, args[0], info)
    if trait == "alloc::string::ToString":
        if info.targs and is_char(info.targs[0]):
            return char_text(I, args[0])
        return fmt_display(I, args[0])
    if trait == "alloc::borrow::ToOwned":
        x = I.deref(args[0])
        if isinstance(x, StrV):
            return x
        return VECM["to_vec"](I, args, info)
    if trait == "core::ops::function::FnOnce" or trait == "core::ops::function::Fn" or trait == "core::ops::function::FnMut":
        a = args[1]
        return I.call_callable(args[0], a.f if isinstance(a, Agg) else (a,))
    if p.startswith("alloc::vec::from_elem"):
        n = args[1]
        if isinstance(n, Poly) and not n.is_const():
            return NatV("SymVec", (n, args[0]))
        if isinstance(n, int) and n > 1 << 24:
            return NatV("SymVec", (n, args[0]))
        return VecV([clone_value(I, args[0]) for _ in range(I.concrete(n, "length"))])
    if p.startswith("core::slice::raw::from_raw_parts"):
        return slice_of(I, args[0], args[1] if isinstance(args[1], int) else I.concrete(args[1], "length"))
    if p.startswith(("core::slice::raw::from_ref", "core::slice::raw::from_mut", "core::array::from_ref", "core::array::from_mut")):
        r = args[0]
        if r.path and isinstance(r.path[-1], int) and isinstance(I.load(Ref(r.obj, r.path[:-1])), VecV):
            i = r.path[-1]
            return Ref(r.obj, r.path[:-1], (i, i + 1))
        if name == "from_mut":
            raise Unsupported("slice over one mutable place")
        return I.mkref(VecV([I.load(r)]))
    for pre, grp in PREFIXES:
        if p.startswith(pre) or path.startswith(pre):
            info.path = path
            if grp == "vec":
                h = VECM.get(name)
                return h(I, args, info) if h is not None else NotImplemented
            h = {"map": mapm, "set": setm, "f64": f64m, "complex": complexm, "big": bigm, "bits": bitm, "mat": matm, "ptr": ptrm, "entry": entrym}[grp]
            return h(I, name, args, info)
    if p.startswith("core::num::<impl "):
        return intm(I, name, args, info, p)
    if p.startswith("core::iter::sources::"):
        s = name
        if s == "once":
            return It("list", (args[0],), 0, 1)
        if s == "empty":
            return It("list", (), 0, 0)
        if s == "repeat":
            return It("repeat", args[0])
        if s == "repeat_n":
            n = I.concrete(args[1])
            return It("list", (args[0],) * n, 0, n)
        if s in ("repeat_with", "from_fn"):
            return It(s, fref(I, args[0]))
        if s == "successors":
            return It("successors", args[0].f[0] if args[0].var == 1 else None, fref(I, args[1]))
        if s == "zip":
            return It("zip", to_it(I, args[0]), to_it(I, args[1]))
    if p.startswith("core::ops::range::RangeInclusive::<Idx>::new"):
        t = info.dest_ty
        return Agg(t, 0, (args[0], args[1], False))
    if p == "core::option::Option::<T>::get_or_insert_with":
        v = I.load(args[0])
        if v.var == 0:
            x = I.call_callable(args[1], [])
            I.store(args[0], Agg(v.ty, 1, (x,)))
        return Ref(args[0].obj, args[0].path + (0,))
    if p == "core::cmp::max" or p == "core::cmp::min":
        c = cmp_value(I, args[0], args[1])
        return (args[0] if c > 0 else args[1]) if name == "max" else (args[0] if c <= 0 else args[1])
    return NotImplemented


def strip(I, a):
    while isinstance(a, Ref):
        v = I.load(a)
        if isinstance(v, Ref):
            a = v
        else:
            return a
    return I.mkref(a)


def deref_trait(I, r):
    v = I.load(r) if isinstance(r, Ref) and r.rng is None else r
    if isinstance(v, NatV):
        if v.kind in ("RefMut", "RefG"):
            return v.d
        if v.kind == "Rc":
            return rc_value_ref(I, v)
        if v.kind in ("Box", "CStr"):
            return Ref(v.d)
        return r
    if isinstance(v, Ref):
        return v
    if isinstance(v, StrV):
        return r if isinstance(r, Ref) else v
    if is_path(v, "core::mem::manually_drop::ManuallyDrop"):
        q = Ref(r.obj, r.path + (0,))
        w = I.load(q)
        if is_path(w, "core::mem::maybe_dangling::MaybeDangling"):
            q = Ref(q.obj, q.path + (0,))
        return q
    return r


def convert(I, v, ty, fn, path):
    if ty is None:
        return NotImplemented
    x = I.deref(v) if isinstance(v, Ref) and ty.k not in ("ref", "ptr") else v
    if ty.s in INT_BITS:
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, Cond):
            return int(I.truth(x))
        if isinstance(x, (int, Poly)):
            return x
    if ty.k == "float":
        if isinstance(x, (bool, Cond)):
            return lift(int(I.truth(x)), True)
        if isinstance(x, int):
            return lift(x, True)
        if isinstance(x, Poly):
            return Poly(x.d, True)
    if ty.path in ("num_bigint::bigint::BigInt", "num_bigint::biguint::BigUint") and isinstance(x, (int, Poly)):
        return x
    if ty.path == "alloc::string::String" and isinstance(x, StrV):
        return x
    if ty.path == "alloc::string::String" and isinstance(x, NatV) and x.kind == "Box" and isinstance(I.get_obj(x.d), StrV):
        return I.get_obj(x.d)
    if ty.path == "alloc::ffi::c_str::CString":
        return cmodels.cstr(I, "to_owned", [v], None)
    if ty.path in ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "alloc::collections::btree::map::BTreeMap",
                   "alloc::collections::btree::set::BTreeSet") and isinstance(x, VecV):
        return collect(I, list(x.items), ty)
    if ty.path in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::binary_heap::BinaryHeap"):
        if isinstance(x, NatV) and x.kind == "Box":
            x = I.deref(nat_deref(I, x))
        if isinstance(x, VecV):
            return VecV([clone_value(I, y) for y in x.items])
        if isinstance(v, Ref):
            return VecV([clone_value(I, y) for y in I.slice_items(v)])
        if isinstance(x, StrV):
            return x
    if ty.path == "alloc::boxed::Box":
        return NatV("Box", I.alloc(x))
    if ty.path in ("alloc::rcs::rc::Rc", "alloc::rc::Rc"):
        if isinstance(x, NatV) and x.kind == "Box" and not (ty.args and ty.args[0].path == "alloc::boxed::Box"):
            x = I.get_obj(x.d)
        return rc_new(I, x)
    if ty.path == "num_complex::Complex" and isinstance(x, (Poly, int)):
        return cplx(lift(x, True), dom.ZERO)
    if ty.path == "core::cell::RefCell":
        return NatV("RefCell", (0, x))
    if ty.path == "core::option::Option":
        return x if is_path(x, "core::option::Option") else some(v)
    if isinstance(x, Agg) and x.ty is ty:
        return x
    return NotImplemented


def target_array(t):
    t = stdmodels.target(t)
    return t if t is not None and t.k == "array" and t.n is not None else None


def try_convert(I, v, info):
    t = info.dest_ty
    inner = t.args[0] if t is not None and t.args else None
    if inner is None or inner.s not in INT_BITS:
        if inner is not None and inner.k == "array" and isinstance(I.deref(v), VecV):
            xs = I.slice_items(v)
            if inner.n is not None and inner.n != len(xs):
                return err(Opaque(("TryFromSlice",)) if isinstance(v, Ref) else v)
            return ok(VecV(xs))
        if inner is not None and inner.k == "ref" and target_array(inner) is not None and isinstance(v, Ref):
            b, lo, hi = slice_ref(I, v)
            if target_array(inner).n != hi - lo:
                return err(Opaque(("TryFromSlice",)))
            return ok(Ref(b.obj, b.path, (lo, hi)))
        if inner is not None and inner.path in ("num_bigint::bigint::BigInt", "num_bigint::biguint::BigUint"):
            x = I.deref(v)
            if isinstance(x, int):
                return ok(x) if x >= 0 or inner.path.endswith("BigInt") else err(Opaque(("TryFromBigInt",)))
        return NotImplemented
    if isinstance(v, Ref) and isinstance(I.deref(v), (int, Poly)):
        v = I.deref(v)
    if isinstance(v, Poly) and v.is_const():
        v = v.const()
    b = INT_BITS[inner.s]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if inner.s[0] == "i" else (0, (1 << b) - 1)
    if isinstance(v, int):
        return ok(v) if lo <= v <= hi else err(Opaque(("TryFromInt",)))
    if isinstance(v, Poly):
        src = info.argtys[0] if getattr(info, "argtys", None) else None
        sb = INT_BITS.get(src.s) if src is not None else None
        need_lo = src is None or src.s[0] == "i" and (inner.s[0] == "u" or (sb and sb > b))
        need_hi = src is None or sb is None or sb > b or (src.s[0] == "u" and inner.s[0] == "i" and sb >= b)
        if need_lo and I.truth(I.compare("Lt", v, lo)):
            return err(Opaque(("TryFromInt",)))
        if need_hi and not I.cfg.get("exact_casts") and I.truth(I.compare("Gt", v, hi)):
            return err(Opaque(("TryFromInt",)))
        return ok(v)
    if isinstance(v, Agg):
        return NotImplemented
    raise Unsupported("conversion of %s" % short(v))


def intm(I, name, a, info, p):
    ty = p[len("core::num::<impl "):].split(">")[0]
    if ty in ("f64", "f32"):
        return f64m(I, name, a, info)
    v = I.deref(a[0]) if a else None
    bits = INT_BITS.get(ty)
    if bits is None:
        return NotImplemented
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)

    def wrap(x):
        x &= (1 << bits) - 1
        return x - (1 << bits) if ty[0] == "i" and x >> (bits - 1) else x
    if name == "from_str_radix" and len(a) == 2:
        return stdmodels.parse_int_text(ty, stdmodels.lit(I, a[0]), I.concrete(a[1], "radix"))
    if name in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        bs = [I.concrete(x, "byte") & 255 for x in I.slice_items(a[0])]
        return wrap(int.from_bytes(bytes(bs), "big" if name == "from_be_bytes" else "little"))
    if name in ("to_le_bytes", "to_be_bytes", "to_ne_bytes") and isinstance(v, int):
        return VecV((v & ((1 << bits) - 1)).to_bytes(bits // 8, "big" if name == "to_be_bytes" else "little"))
    if name in ("rotate_left", "rotate_right", "swap_bytes", "reverse_bits", "to_be", "from_be") and isinstance(v, int):
        u = v & ((1 << bits) - 1)
        if name.startswith("rotate"):
            k = I.concrete(a[1], "rotation") % bits
            k = k if name == "rotate_left" else (bits - k) % bits
            return wrap(u << k | u >> (bits - k))
        if name == "reverse_bits":
            return wrap(int(bin(u)[2:].zfill(bits)[::-1], 2))
        return wrap(int.from_bytes(u.to_bytes(bits // 8, "little"), "big"))
    if name == "is_multiple_of" and isinstance(v, int):
        return (v % a[1] == 0) if a[1] else v == 0
    if name == "is_power_of_two" and isinstance(v, int):
        return v > 0 and v & (v - 1) == 0
    if name == "pow":
        n = I.concrete(a[1])
        if isinstance(v, int):
            r = v ** n
            if not lo <= r <= hi:
                raise Panic("attempt to multiply with overflow")
            return r
        r = lift(1)
        for _ in range(n):
            r = r * v
        return r
    if name in ("count_ones", "trailing_zeros", "leading_zeros", "count_zeros", "ilog2") and isinstance(v, int):
        u = v & ((1 << bits) - 1)
        return {"count_ones": bin(u).count("1"), "trailing_zeros": bits if u == 0 else (u & -u).bit_length() - 1,
                "leading_zeros": bits - u.bit_length(), "count_zeros": bits - bin(u).count("1"), "ilog2": u.bit_length() - 1}[name]
    if name in ("abs", "unsigned_abs"):
        if isinstance(v, int):
            return abs(v)
        if isinstance(v, Poly):
            return (-v) if I.truth(I.compare("Lt", v, 0)) else v
    for pre in ("wrapping_", "saturating_", "checked_", "overflowing_", "unchecked_"):
        if name.startswith(pre):
            op = name[len(pre):]
            o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg", "shl": "Shl", "shr": "Shr"}.get(op)
            if op == "abs" and isinstance(v, int):
                r = abs(v)
            elif o is None:
                return NotImplemented
            elif o == "Neg":
                r = -v if isinstance(v, int) else -lift(v)
            else:
                w = I.deref(a[1])
                if o in ("Div", "Rem") and isinstance(w, int) and w == 0:
                    if pre == "checked_":
                        return NONE
                    raise Panic("division by zero")
                if isinstance(v, int) and isinstance(w, int):
                    r = {"Add": lambda: v + w, "Sub": lambda: v - w, "Mul": lambda: v * w, "Shl": lambda: v << (w % bits),
                         "Shr": lambda: v >> (w % bits)}.get(o, lambda: arith(I, op, v, w))()
                else:
                    from mir import Ty as _T
                    t = _T()
                    t.s, t.k = ty, "int"
                    r = I.binop(o, v, w, t)
            if isinstance(r, int):
                inr = lo <= r <= hi
                if o in ("Shl", "Shr"):
                    w = I.concrete(w, "shift")
                    inr, r = 0 <= w < bits, wrap(r)
                if pre == "wrapping_":
                    return wrap(r)
                if pre == "saturating_":
                    return min(max(r, lo), hi)
                if pre == "checked_":
                    return some(r) if inr else NONE
                if pre == "overflowing_":
                    return tup(wrap(r), not inr)
                return r
            if pre in ("wrapping_", "unchecked_"):
                return r
            if pre == "saturating_":
                if ty[0] == "u" and o == "Sub" and I.truth(I.compare("Lt", r, 0)):
                    return 0
                return r
            if pre == "checked_":
                if ty[0] == "u" and o == "Sub" and I.truth(I.compare("Lt", r, 0)):
                    return NONE
                return some(r)
            return tup(r, False)
    if name == "abs_diff":
        w = I.deref(a[1])
        r = I.binop("Sub", v, w, None)
        return -r if I.truth(I.compare("Lt", r, 0)) else r
    if name in ("rem_euclid", "div_euclid") and isinstance(v, int):
        w = a[1]
        m = v % abs(w)
        return m if name == "rem_euclid" else (v - m) // w
    if name in ("signum",) and isinstance(v, int):
        return (v > 0) - (v < 0)
    return NotImplemented


table = TABLE

import cmodels  # noqa: E402
import stdmodels  # noqa: E402
import matmodels  # noqa: E402
