"""Properties of the runtime library (C18-C26): every exported runtime function is interpreted from its C entry point."""
import itertools
import math
import cmodels
import dom
import fp
import interp
import models
import backlab
import back_checks as K
from dom import A, lift
from engine import BAD, OK, UNK, MissingAnchor, Result, judge
from interp import Agg, Cond, NatV, Opaque, Panic, Poly, Ref, StrV, UB, Unsupported, VecV

RT, QIS = "__quantum__rt__", "__quantum__qis__"
_B = {}


def back(prog):
    if id(prog) not in _B:
        B = backlab.Back(prog)
        missing = [RT + n for n in NEEDED if not B.has(RT + n)]
        if missing:
            raise MissingAnchor("not exported: " + ", ".join(missing))
        _B[id(prog)] = B
    return _B[id(prog)]


NEEDED = ["array_create_1d", "array_copy", "array_concatenate", "array_get_size_1d", "array_get_element_ptr_1d",
          "array_update_reference_count", "array_update_alias_count", "tuple_create", "tuple_copy", "tuple_update_reference_count",
          "tuple_update_alias_count", "callable_create", "callable_invoke", "callable_copy", "callable_make_adjoint",
          "callable_make_controlled", "callable_update_reference_count", "callable_update_alias_count",
          "capture_update_reference_count", "capture_update_alias_count", "string_create", "string_get_data", "string_get_length",
          "string_concatenate", "string_equal", "string_update_reference_count", "int_to_string", "double_to_string", "bool_to_string",
          "pauli_to_string", "bigint_to_string", "bigint_create_i64", "bigint_create_array", "bigint_get_data", "bigint_get_length",
          "bigint_update_reference_count", "memory_allocate", "message", "fail"]
SLICE, RANGE_STR = "quantum__rt__array_slice_1d", "quantum__rt__range_to_string"


# ------------------------------------------------------------------ objects and what they own
def rcs(I):
    """Live counted allocations: object -> (owners, aliases)."""
    out = {}
    for o, v in I.heap.items():
        if o.startswith("rc") and o not in I.freed and isinstance(v, Agg) and v.ty is None and len(v.f) == 3:
            s = v.f[0]
            if not (isinstance(s, int) and s == 0):
                out[o] = (s, v.f[1])
    return out


def owner(I, B, kind, p):
    """The counted allocation behind a runtime pointer."""
    if kind == "tuple":
        h = I.load_ptr(p, -8) if hasattr(I, "load_ptr") else models.peek(I, B.at(I, p, -8), backlab.BTy(8))
        return models.rc_of_ptr(I, h)
    return models.rc_of_ptr(I, p)


def make(B, I, kind, tag="v"):
    """One object of a kind."""
    if kind == "array":
        return B.array(I, [A("sym", tag + "0", False), A("sym", tag + "1", False)])
    if kind == "qarray":
        return B.array(I, [0, 1])
    if kind == "tuple":
        return B.tuple(I, [(A("sym", tag + "a", False), 8), (A("sym", tag + "b", False), 8)])
    if kind == "string":
        return B.call(I, RT + "string_create", B.cstr(I, "text-" + tag))
    if kind == "bigint":
        return B.call(I, RT + "bigint_create_i64", 5 + len(tag))
    if kind == "callable":
        return B.call(I, RT + "callable_create", functable(I), 0, 0)
    raise KeyError(kind)


def functable(I, n=4, name="fn", null=()):
    """A table of function pointers in memory."""
    v = VecV([0] * (8 * n))
    p = Ref(I.alloc(v, "table"), (("b", 0),))
    for i in range(n):
        I.store(Ref(p.obj, (("as", 8 * i, backlab.BTy(8)),)), 0 if i in null else entry_point(name, i))
    return p


def entry_point(name, i):
    """A function of the program: calling it reports to the hook."""
    key = Opaque((name, i))
    return NatV("PyFn", lambda I, args: I.cfg["opaque_call"](I, key, args))


def set_counts(B, I, kind, p, strong, weak):
    for i in range(strong - 1):
        B.call(I, RT + kind + "_update_reference_count", p, 1)
    for i in range(weak):
        B.call(I, RT + kind + "_update_alias_count", p, 1)


def explore(prog, entry, limits=None, depth=2, paths=400, ok=K.fine):
    outs, comp = interp.explore(prog, models, entry, limits or {}, max_paths=paths, subst_depth=depth)
    return judge(outs, comp, ok)


KINDS = ["array", "tuple", "callable", "string", "bigint"]
ALIASED = ("array", "tuple", "callable")


# ------------------------------------------------------------------ C19: reference counts
def check_update(prog, kind, strong, weak, n, alias):
    B = back(prog)
    fn = RT + kind + ("_update_alias_count" if alias else "_update_reference_count")

    def entry(I):
        p = make(B, I, kind)
        o = owner(I, B, kind, p)
        other = make(B, I, kind, "w")
        oo = owner(I, B, kind, other)
        set_counts(B, I, kind, p, strong, weak)
        before = rcs(I)
        if before.get(o) != (strong, weak):
            return "%d single updates leave %s owners and %s aliases" % (strong - 1 + weak, *(before.get(o) or (0, 0)))
        content = I.heap[o].f[2]
        at = len(I.trace)
        B.call(I, fn, p, n)
        after = rcs(I)
        want = dict(before)
        s, w = (strong, weak + n) if alias else (strong + n, weak)
        want[o] = (s, w)
        if s == 0:
            del want[o]
        frees = [t for t in I.trace[at:] if t[0] == "free"]
        if after != want:
            return "%s(%d) on an object with %d owners and %d aliases leaves %s, required %s" % (
                fn, n, strong, weak, after.get(o, "it released"), want.get(o, "it released"))
        if len(frees) != (1 if s == 0 else 0):
            return "%s(%d) with %d owners releases the object %d times" % (fn, n, strong, len(frees))
        if s and I.heap[o].f[2] != content:
            return "%s changes the object" % fn
        if oo not in after:
            return "another object was released"
        return None
    return explore(prog, entry, {"loop": 80000, "steps": 20000000})


def obligations_C19(prog, tier):
    back(prog)
    obs = []
    top = 4 if tier == "quick" else 7
    for kind in KINDS:
        for alias in (False, True):
            if alias and kind not in ALIASED:
                continue
            fn = RT + kind + ("_update_alias_count" if alias else "_update_reference_count")
            for s in range(1, top):
                for w in range(0, 3 if kind in ALIASED else 1):
                    cur = w if alias else s
                    for n in sorted(set(list(range(-cur, top)) + [17])):
                        obs.append(("%s:%d owners:%d aliases:%+d" % (fn, s, w, n), fn,
                                    lambda a=(kind, s, w, n, alias): check_update(prog, *a)))
            for big in (300, 70000 if tier == "thorough" else 5000) + ((33000,) if kind == "array" else ()):
                obs.append(("%s:large:+%d" % (fn, big), fn, lambda a=(kind, 1, 0, big, alias): check_update(prog, *a)))
            for cur in (3, 4, 5, 6, 8, 9, 16, 17, 33, 65):
                for n in sorted({-cur, 1 - cur, 2 - cur, -1, -2, -3, -4} | ({-n for n in range(5, cur, 7)})):
                    if -n <= cur:
                        obs.append(("%s:down:%d%+d" % (fn, cur, n), fn, lambda a=(kind, *((1, cur) if alias else (cur, 0)), n, alias): check_update(prog, *a)))
            if not alias:
                obs.append(("%s:large:down" % fn, fn, lambda a=(kind, 20, 0, -20, alias): check_update(prog, *a)))
    return obs


# ------------------------------------------------------------------ C21: arrays
def cell(i):
    return A("sym", "byte%s" % (i,), False)


def fill(B, I, arr, size, vals):
    """Write the bytes of every element through its element pointer."""
    for i, bs in enumerate(vals):
        p = B.call(I, RT + "array_get_element_ptr_1d", arr, i)
        for j, b in enumerate(bs):
            B.put(I, B.at(I, p, j), b, 1)


def contents(B, I, arr, size, n):
    """The bytes of elements 0..n-1 through the element pointers."""
    out = []
    for i in range(n):
        p = B.call(I, RT + "array_get_element_ptr_1d", arr, i)
        out.append([models.peek(I, B.at(I, p, j), backlab.BTy(1)) for j in range(size)])
    return out


def length(B, I, arr):
    n = B.call(I, RT + "array_get_size_1d", arr)
    return n.const() if isinstance(n, Poly) and n.is_const() else n


def sym_array(B, I, size, n, tag, used=None):
    arr = B.call(I, RT + "array_create_1d", size, n)
    vals = [[cell("%s%d.%d" % (tag, i, j)) for j in range(size)] for i in range(n)]
    fill(B, I, arr, size, vals)
    return arr, vals


def check_array_create(prog, size, n):
    B = back(prog)

    def entry(I):
        arr = B.call(I, RT + "array_create_1d", size, n)
        k = length(B, I, arr)
        if k != n:
            return "a new array of %d elements of %d bytes reports %s elements" % (n, size, interp.short(k))
        if contents(B, I, arr, size, n) != [[0] * size] * n:
            return "a new array is not all zero"
        other, _ = sym_array(B, I, size, n, "w")
        vals = [[cell("v%d.%d" % (i, j)) for j in range(size)] for i in range(n)]
        for i in reversed(range(n)):
            p = B.call(I, RT + "array_get_element_ptr_1d", arr, i)
            for j, b in enumerate(vals[i]):
                B.put(I, B.at(I, p, j), b, 1)
        if contents(B, I, arr, size, n) != vals:
            return "bytes written through one element's address do not read back from that element"
        if n:
            p0 = B.call(I, RT + "array_get_element_ptr_1d", arr, 0)
            flat = [models.peek(I, B.at(I, p0, j), backlab.BTy(1)) for j in range(size * n)]
            if flat != sum(vals, []):
                return "elements are not contiguous in index order"
        return None
    return explore(prog, entry)


def check_concat(prog, size, n, m, same=False):
    B = back(prog)

    def entry(I):
        a, av = sym_array(B, I, size, n, "a")
        b, bv = (a, av) if same else sym_array(B, I, size, m, "b")
        c = B.call(I, RT + "array_concatenate", a, b)
        want = av + bv
        if length(B, I, c) != len(want):
            return "concatenating %d and %d elements yields %s" % (n, len(bv), interp.short(length(B, I, c)))
        if contents(B, I, c, size, len(want)) != want:
            return "the concatenation does not hold the elements of both arrays in order"
        for x, v in ((a, av), (b, bv)):
            if length(B, I, x) != len(v) or contents(B, I, x, size, len(v)) != v:
                return "concatenation changed an operand"
        return None
    return explore(prog, entry)


def check_huge(prog, size, n):
    """Arrays of more than 4 GiB, whose storage is only a length: size query and addresses of elements."""
    B = back(prog)

    def entry(I):
        arr = B.call(I, RT + "array_create_1d", size, n)
        k = length(B, I, arr)
        if k != n:
            return "a new array of %d elements of %d bytes reports %s elements" % (n, size, interp.short(k))
        top = (1 << 32) // size
        for i in sorted({0, 1, n // 2, n // 2 + 1, top - 1, top, top + 1, n - 1}):
            p = B.call(I, RT + "array_get_element_ptr_1d", arr, i)
            if not isinstance(p, NatV) or p.kind != "PtrOff":
                raise Unsupported("element pointer %s" % interp.short(p))
            if p.d[2:] and p.d[2] != 1:
                raise Unsupported("element pointer in units of %d bytes" % p.d[2])
            if lift(p.d[1]) != lift(i * size):
                return "element %d of %d-byte elements is addressed %s bytes into the array, required %d" % (i, size, interp.short(p.d[1]), i * size)
        return None
    return explore(prog, entry)


def check_concat_mismatch(prog, s1, s2, n1=2, n2=2):
    B = back(prog)

    def entry(I):
        a, _ = sym_array(B, I, s1, n1, "a")
        b, _ = sym_array(B, I, s2, n2, "b")
        B.call(I, RT + "array_concatenate", a, b)
        return "arrays of %d- and %d-byte elements are concatenated" % (s1, s2)
    return explore(prog, entry, ok=lambda o: None if o.kind == "panic" else K.fine(o))


def range_val(B, start, step, end):
    ty = B.P.types.get("qir_stdlib::range_support::Range") or next(t for s, t in B.P.types.items() if s.endswith("::Range") and t.variants and [f[0] for f in t.variants[0][2]] == ["start", "step", "end"])
    return Agg(ty, 0, (start, step, end))


def indices(start, step, end):
    out, i = [], start
    while (i <= end if step > 0 else i >= end):
        out.append(i)
        i += step
    return out


def check_slice(prog, size, n, start, step, end):
    B = back(prog)

    def entry(I):
        a, av = sym_array(B, I, size, n, "a")
        s = B.call(I, SLICE, a, range_val(B, start, step, end))
        want = [av[i] for i in indices(start, step, end)]
        k = length(B, I, s)
        if k != len(want):
            return "the slice %d..%d..%d of %d elements has %s elements, required %d" % (start, step, end, n, interp.short(k), len(want))
        if contents(B, I, s, size, len(want)) != want:
            return "the slice %d..%d..%d does not hold the elements %s in order" % (start, step, end, indices(start, step, end))
        if length(B, I, a) != n or contents(B, I, a, size, n) != av:
            return "slicing changed its operand"
        if isinstance(s, Ref) and isinstance(a, Ref) and s.obj == a.obj:
            return "the slice is the original array"
        return None
    return explore(prog, entry)


def obligations_C21(prog, tier):
    B = back(prog)
    obs = []
    sizes = (1, 2, 3, 4, 8, 16, 24) + ((5, 12, 32) if tier == "thorough" else ())
    top = 5 if tier == "quick" else 8
    for size in sizes:
        for n in range(0, top):
            obs.append(("create:%dx%d" % (n, size), RT + "array_create_1d", lambda a=(size, n): check_array_create(prog, *a)))
            for m in range(0, 4):
                obs.append(("concatenate:%d+%dx%d" % (n, m, size), RT + "array_concatenate", lambda a=(size, n, m): check_concat(prog, *a)))
            obs.append(("concatenate-self:%dx%d" % (n, size), RT + "array_concatenate", lambda a=(size, n, n, True): check_concat(prog, *a)))
    for s1, s2 in itertools.permutations((1, 2, 4, 8, 24), 2):
        obs.append(("concatenate-mismatch:%d,%d" % (s1, s2), RT + "array_concatenate", lambda a=(s1, s2): check_concat_mismatch(prog, *a)))
        for n1, n2 in ((0, 0), (0, 1), (1, 0), (s2, s1)):
            obs.append(("concatenate-mismatch:%dx%d,%dx%d" % (n1, s1, n2, s2), RT + "array_concatenate",
                        lambda a=(s1, s2, n1, n2): check_concat_mismatch(prog, *a)))
    for size, n in ((1 << 16, 1 << 17), (1, (1 << 33) + 3), (8, 1 << 30), (24, 400000000), (1 << 20, 1 << 13)):
        obs.append(("huge:%dx%d" % (n, size), RT + "array_get_element_ptr_1d", lambda a=(size, n): check_huge(prog, *a)))
    if not B.has(SLICE):
        raise MissingAnchor("not exported: " + SLICE)
    for size in (1, 3, 8) + ((2, 4, 16, 24) if tier == "thorough" else ()):
        for n in range(0, 6 if size == 8 else 4):
            for start in range(-1, n + 1):
                for end in range(-1, n + 2):
                    for step in (1, 2, 3, 4, -1, -2, -3, -4, 2 ** 32 + 1, -2 ** 32 - 1):
                        ix = indices(start, step, end)
                        if all(0 <= i < n for i in ix):
                            obs.append(("slice:%dx%d:%d..%d..%d" % (n, size, start, step, end), SLICE,
                                        lambda a=(size, n, start, step, end): check_slice(prog, *a)))
    return obs


# ------------------------------------------------------------------ C20: copies
def copy_fn(kind):
    return RT + kind + "_copy"


def look(B, I, kind, p):
    """What a user can read of an object."""
    if kind == "array":
        return [models.peek(I, B.call(I, RT + "array_get_element_ptr_1d", p, i), backlab.BTy(8)) for i in range(B.call(I, RT + "array_get_size_1d", p))]
    if kind == "tuple":
        return [models.peek(I, B.at(I, p, 8 * i), backlab.BTy(8)) for i in range(2)]
    return probe(B, I, p)


def mutate(B, I, kind, p, tag):
    if kind == "array":
        B.put(I, B.call(I, RT + "array_get_element_ptr_1d", p, 1), A("sym", "new" + tag, False), 8)
    elif kind == "tuple":
        B.put(I, B.at(I, p, 8), A("sym", "new" + tag, False), 8)
    else:
        B.call(I, RT + "callable_make_adjoint", p)
        B.call(I, RT + "callable_make_controlled", p)


def probe(B, I, c):
    """Which table entry the callable invokes, with how many control lists flattened: tried with nested controls."""
    seen = []

    def hook(I, fv, args):
        t = args[1]
        arr = models.peek(I, t, backlab.BTy(8))
        flat = None
        if isinstance(arr, Ref):
            flat = tuple(look(B, I, "array", arr))
        seen.append((fv.key, args[0], args[2], flat, models.peek(I, B.at(I, t, 8), backlab.BTy(8)) if flat is not None else arr))
        return interp.UNIT
    old = I.cfg.get("opaque_call")
    I.cfg["opaque_call"] = hook
    deep = B.tuple(I, [(99, 8), (98, 8)])
    for k in (4, 3, 2, 1):
        deep = B.tuple(I, [(B.array(I, [k]), 8), (deep, 8)])
    B.call(I, RT + "callable_invoke", c, deep, 0)
    I.cfg["opaque_call"] = old
    if len(seen) != 1:
        return ("calls", len(seen))
    fn, cap, res, flat, nxt = seen[0]
    return (fn, cap, res, None if fn[1] < 2 else flat)


def check_copy(prog, kind, strong, weak, force, history=()):
    B = back(prog)
    fn = copy_fn(kind)

    def entry(I):
        if kind == "callable":
            cap = B.tuple(I, [(A("sym", "cap", False), 8)])
            p = B.call(I, RT + "callable_create", functable(I), 0, cap)
            for h in history:
                B.call(I, RT + "callable_make_" + h, p)
        else:
            p = make(B, I, kind)
        o = owner(I, B, kind, p)
        set_counts(B, I, kind, p, strong, weak)
        first = look(B, I, kind, p)
        before = rcs(I)
        q = B.call(I, fn, p, force)
        after = rcs(I)
        if not force and weak == 0:
            if q != p:
                return "an unshared original without a forced copy is not returned itself"
            want = dict(before)
            want[o] = (strong + 1, weak)
            if after != want:
                return "returning the original leaves it with %s owners and aliases, required %s" % (after.get(o), want[o])
            return None if look(B, I, kind, p) == first else "the original changed"
        if isinstance(q, Ref) and isinstance(p, Ref) and q == p:
            return "a copy of a %s is the original itself" % ("forced copy" if force else "shared object")
        oq = owner(I, B, kind, q)
        if oq == o:
            return "the copy is counted as the original"
        want = dict(before)
        want[oq] = (1, 0)
        if after != want:
            return "after copying the owners are %s, required %s" % (after, want)
        if look(B, I, kind, q) != first:
            return "the copy differs from the original: %s instead of %s" % (interp.short(look(B, I, kind, q)), interp.short(first))
        if kind == "array" and B.call(I, RT + "array_get_size_1d", q) != 2:
            return "the copy has another length"
        mutate(B, I, kind, p, "p")
        if look(B, I, kind, q) != first:
            return "a change to the original is visible through the copy"
        changed = look(B, I, kind, p)
        if changed == first:
            return "the change to the original is not visible through the original"
        mutate(B, I, kind, q, "q")
        mutate(B, I, kind, q, "q2") if kind != "callable" else None
        if look(B, I, kind, p) != changed:
            return "a change to the copy is visible through the original"
        r = B.call(I, fn, q, True)           # a copy of the copy
        second = look(B, I, kind, q)
        if look(B, I, kind, r) != second:
            return "a copy of the copy differs from it"
        # the owners of each are its own
        for i in range(weak):
            B.call(I, RT + kind + "_update_alias_count", p, -1)
        for i in range(strong):
            B.call(I, RT + kind + "_update_reference_count", p, -1)
        left = rcs(I)
        if o in left or oq not in left:
            return "releasing the original does not release it, or releases the copy"
        if look(B, I, kind, q) != second:
            return "releasing the original changes the copy"
        B.call(I, RT + kind + "_update_reference_count", q, -1)
        if oq in rcs(I):
            return "releasing the copy does not release it"
        return None if look(B, I, kind, r) == second else "releasing a copy changes its own copy"
    return explore(prog, entry)


def check_copy_empty(prog, kind, size):
    B = back(prog)

    def entry(I):
        p = B.call(I, RT + "tuple_create", size) if kind == "tuple" else B.call(I, RT + "array_create_1d", 8, size)
        q = B.call(I, copy_fn(kind), p, True)
        o, oq = owner(I, B, kind, p), owner(I, B, kind, q)
        if o == oq:
            return "a forced copy is counted as the original"
        if rcs(I).get(oq) != (1, 0):
            return "the copy is not owned once"
        if kind == "array" and B.call(I, RT + "array_get_size_1d", q) != size:
            return "the copy has another length"
        if kind == "tuple":
            if [models.peek(I, B.at(I, q, i), backlab.BTy(1)) for i in range(size)] != [0] * size:
                return "the copy of a new tuple is not zero"
        return None
    return explore(prog, entry)


def obligations_C20(prog, tier):
    back(prog)
    obs = []
    for kind in ALIASED:
        hs = [()]
        if kind == "callable":
            hs = [(), ("adjoint",), ("controlled",), ("adjoint", "controlled"), ("controlled", "controlled"), ("adjoint", "adjoint"),
                  ("controlled", "controlled", "controlled"), ("controlled", "adjoint", "controlled")]
        for h in hs:
            for s in (1, 2, 3, 5):
                for w in (0, 1, 2, 3):
                    for force in (False, True):
                        obs.append(("%s:%s:%d owners:%d aliases:%s" % (copy_fn(kind), "-".join(h), s, w, "forced" if force else "unforced"),
                                    copy_fn(kind), lambda a=(kind, s, w, force, h): check_copy(prog, *a)))
    for n in (0, 1, 3, 8, 12, 40):
        for kind in ("array", "tuple"):
            obs.append(("%s:size %d" % (copy_fn(kind), n), copy_fn(kind), lambda a=(kind, n): check_copy_empty(prog, *a)))
    return obs


# ------------------------------------------------------------------ C22: callables
def nested_args(B, I, sizes, inner):
    """An argument tuple with one control list per level (outermost first): the innermost level carries `inner` beside its controls.
    Returns (tuple, ids per level, [(kind, object)] made on the way)."""
    made, ids = [], []
    n = 0
    for s in sizes:
        ids.append(list(range(100 + n, 100 + n + s)))
        n += s
    deep = None
    for lv in reversed(range(len(sizes))):
        arr = B.array(I, ids[lv])
        made.append(("array", arr))
        rest = [(v, 8) for v in inner] if deep is None else [(deep, 8)]
        deep = B.tuple(I, [(arr, 8)] + rest)
        made.append(("tuple", deep))
    return deep, ids, made


def words8(B, I, t, n):
    return [models.peek(I, B.at(I, t, 8 * i), backlab.BTy(8)) for i in range(n)]


def check_invoke(prog, history, sizes, ninner, capture, result, during=None, twice=False):
    """history: functor calls and copies applied to a fresh callable; sizes: number of controls per level."""
    B = back(prog)

    def entry(I):
        tab = functable(I)
        cap = B.tuple(I, [(A("sym", "cap", False), 8)]) if capture else 0
        res = B.tuple(I, [(A("sym", "old", False), 8)]) if result else 0
        c = B.call(I, RT + "callable_create", tab, 0, cap)
        adj = nctl = 0
        for h in history:
            if h == "A":
                B.call(I, RT + "callable_make_adjoint", c)
                adj ^= 1
            elif h == "C":
                B.call(I, RT + "callable_make_controlled", c)
                nctl += 1
            elif h == "copy":
                c = B.call(I, RT + "callable_copy", c, True)
            else:                                     # a copy that goes its own way
                d = B.call(I, RT + "callable_copy", c, True)
                B.call(I, RT + "callable_make_adjoint", d)
                B.call(I, RT + "callable_make_controlled", d)
        inner = [A("sym", "arg%d" % i, False) for i in range(ninner)]
        if nctl:
            args, ids, made = nested_args(B, I, sizes, inner)
        elif ninner:
            args, ids, made = B.tuple(I, [(v, 8) for v in inner]), [], []
            made = [("tuple", args)]
        else:
            args, ids, made = 0, [], []
        index = adj + (2 if nctl else 0)
        before = rcs(I)
        look0 = [look(B, I, k, p) if k == "array" else words8(B, I, p, 2 if nctl and p != args or ninner > 1 else 1) for k, p in made]
        calls = []

        def hook(I, fv, a):
            calls.append(fv.key)
            if fv.key != ("fn", index):
                raise Wrong("function %s is called, required %d (adjoint %d times, %d control levels)" % (
                    fv.key[1] if isinstance(fv.key, tuple) else fv.key, index, adj, nctl))
            if len(a) != 3:
                raise Wrong("the function is called with %d arguments" % len(a))
            if a[0] != cap:
                raise Wrong("the capture tuple is not the callable's")
            if a[2] != res:
                raise Wrong("the result tuple is not the caller's")
            if not nctl:
                if not ninner:
                    if a[1] != 0:
                        raise Wrong("a null argument tuple is not passed as null")
                elif words8(B, I, a[1], ninner) != inner:
                    raise Wrong("the argument tuple differs: %s" % interp.short(words8(B, I, a[1], ninner)))
            else:
                w = words8(B, I, a[1], 1 + ninner)
                got = look(B, I, "array", w[0])
                want = sum(ids, [])
                if got != want:
                    raise Wrong("the control list is %s, required %s (levels outermost first: %s)" % (got, want, ids))
                if w[1:] != inner:
                    raise Wrong("the arguments after the controls are %s" % interp.short(w[1:]))
            if result:
                B.put(I, B.at(I, res, 0), A("sym", "result", False), 8)
            if during == "adjoint":
                B.call(I, RT + "callable_make_adjoint", c)
                B.call(I, RT + "callable_make_adjoint", c)
            if during == "invoke" and len(calls) == 1:
                B.call(I, RT + "callable_invoke", c, args, res)
            if during == "copy":
                d = B.call(I, RT + "callable_copy", c, True)
                B.call(I, RT + "callable_update_reference_count", d, -1)
            if during == "keep":
                if nctl:
                    ka = models.peek(I, a[1], backlab.BTy(8))
                    B.call(I, RT + "array_update_reference_count", ka, 1)
                    kept.append(owner(I, B, "array", ka))
                B.call(I, RT + "tuple_update_reference_count", a[1], 1)
                kept.append(owner(I, B, "tuple", a[1]))
            return interp.UNIT
        kept = []
        I.cfg = dict(I.cfg, opaque_call=hook)
        try:
            for _ in range(2 if twice else 1):
                B.call(I, RT + "callable_invoke", c, args, res)
        except Wrong as e:
            return str(e)
        if len(calls) != (2 if during == "invoke" or twice else 1):
            return "%d functions are called" % len(calls)
        after = rcs(I)
        for o in kept:
            if o not in after:
                return "an object the callee took a reference on is released"
            before[o] = (before[o][0] + 1, before[o][1]) if o in before else (1, 0)
        if after != before:
            gone = [o for o in before if after.get(o) != before[o]]
            new = [o for o in after if o not in before]
            return "invoking changes ownership: %d objects changed, %d left over" % (len(gone), len(new))
        if [look(B, I, k, p) if k == "array" else words8(B, I, p, 2 if nctl and p != args or ninner > 1 else 1) for k, p in made] != look0:
            return "invoking changes the caller's tuples or control lists"
        if result and words8(B, I, res, 1) != [A("sym", "result", False)]:
            return "the result does not reach the caller's tuple"
        return None
    return explore(prog, entry)


class Wrong(Exception):
    pass


def check_capture(prog, alias, table, n, cap):
    """capture_update_*: the memory-management function in the callable's table is called on the capture with the given amount."""
    B = back(prog)
    fn = RT + ("capture_update_alias_count" if alias else "capture_update_reference_count")

    def entry(I):
        c0 = B.tuple(I, [(A("sym", "cap", False), 8)]) if cap else 0
        null = {"full": (), "ref-null": (0,), "alias-null": (1,), "both-null": (0, 1)}.get(table)
        tab = 0 if null is None else functable(I, 2, "mem", null)
        c = B.call(I, RT + "callable_create", functable(I), tab, c0)
        calls = []
        I.cfg = dict(I.cfg, opaque_call=lambda I, fv, a: (calls.append((fv.key, list(a))), interp.UNIT)[1])
        before = rcs(I)
        B.call(I, fn, c, n)
        i = 1 if alias else 0
        want = [] if null is None or i in null else [(("mem", i), [c0, n])]
        if calls != want:
            return "%s(%d) with a %s memory table calls %s, required %s" % (fn, n, table, interp.short(calls), interp.short(want))
        return None if rcs(I) == before else "%s changes ownership counts itself" % fn
    return explore(prog, entry)


def obligations_C22(prog, tier):
    back(prog)
    obs = []
    INV = RT + "callable_invoke"
    top = 4 if tier == "quick" else 5
    steps = ("A", "C", "copy", "fork")
    for k in range(0, top + 1):
        for h in itertools.product(steps, repeat=k):
            if k > 3 and h.count("copy") + h.count("fork") > 1 and tier == "quick":
                continue
            nc = h.count("C")
            shapes = [()] if nc == 0 else [s for s in itertools.product((0, 1, 2, 3), repeat=nc) if nc < 3 or sum(s) in (0, 3, 4) or s == (1,) * nc]
            if k > 2:
                shapes = shapes[:1] + [s for s in shapes if s in ((1, 2), (2, 1), (1,) * nc, (2, 0, 1), (1, 2, 1), (0, 1, 2), (1, 1, 2))]
            for s in sorted(set(shapes)):
                for ni in ((0, 1, 2) if nc == 0 else (1, 2)):
                    obs.append(("invoke:%s:%s:%d" % ("-".join(h), ",".join(map(str, s)), ni), INV,
                                lambda a=(h, s, ni, True, True): check_invoke(prog, *a)))
    for h, s in (((), ()), (("A",), ()), (("C",), (2,)), (("C", "A"), (1,)), (("C", "C"), (1, 2)), (("C", "C", "C"), (1, 0, 2))):
        for cap, res in ((True, False), (False, True), (False, False)):
            for ni in ((0, 1, 3) if not s else (1, 3)):
                obs.append(("tuples:%s:%s:%d:%d%d" % ("-".join(h), s, ni, cap, res), INV, lambda a=(h, s, ni, cap, res): check_invoke(prog, *a)))
        for d in ("adjoint", "invoke", "copy", "keep"):
            obs.append(("callback-%s:%s:%s" % (d, "-".join(h), s), INV, lambda a=(h, s, 1, True, True, d): check_invoke(prog, *a)))
        obs.append(("twice:%s:%s" % ("-".join(h), s), INV, lambda a=(h, s, 1, True, True, None, True): check_invoke(prog, *a)))
    for big in (5, 9):
        obs.append(("deep:%d" % big, INV, lambda big=big: check_invoke(prog, ("C",) * big, (1,) * big, 1, True, True)))
        obs.append(("deep-adjoint:%d" % big, INV, lambda big=big: check_invoke(prog, ("A",) * big + ("C",), (2,), 1, True, True)))
    for big in (33, 64, 65, 128, 256, 257) + ((65536,) if tier == "thorough" else ()):
        for pre in ((), ("A",)):
            obs.append(("deep:%d controls%s" % (big, "".join(pre)), INV, lambda big=big, pre=pre: check_invoke(prog, pre + ("C",) * big, (1,) + (0,) * (big - 1), 1, True, True)))
    for alias in (False, True):
        for table in ("none", "full", "ref-null", "alias-null", "both-null"):
            for n in (1, -1, 5, 0):
                for cap in (True, False):
                    obs.append(("capture-%s:%s:%+d:%s" % ("alias" if alias else "reference", table, n, cap),
                                RT + ("capture_update_alias_count" if alias else "capture_update_reference_count"),
                                lambda a=(alias, table, n, cap): check_capture(prog, *a)))
    return obs


# ------------------------------------------------------------------ C18: ownership across calls
def text_val(I, B, p):
    return interp.short(B.string(I, p))


def read_obj(B, I, kind, p):
    if kind == "string":
        return text_val(I, B, p)
    if kind == "bigint":
        return I.deref(p)
    if kind == "array":
        n = B.call(I, RT + "array_get_size_1d", p)
        return n, [I.load(Ref(q.obj, q.path)) if False else q.path[-1] for q in [B.call(I, RT + "array_get_element_ptr_1d", p, i) for i in range(n)]]
    if kind == "tuple":
        return models.peek(I, B.at(I, p, 0), backlab.BTy(1))
    if kind == "callable":
        return probe(B, I, p)
    if kind == "cstr":
        return interp.short(cmodels.strip_nul(I, I.load(cmodels.cstr_from_ptr(I, p))))
    if kind == "element":
        return models.peek(I, p, backlab.BTy(8))
    return None


def reach(I, roots):
    """Heap objects reachable from values."""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, (Ref,)):
            o = v.obj
        elif isinstance(v, NatV):
            if isinstance(v.d, str) and v.d in I.heap:
                o = v.d
            else:
                todo += list(v.d) if isinstance(v.d, tuple) else [v.d]
                continue
        elif isinstance(v, Agg):
            todo += list(v.f)
            continue
        elif isinstance(v, VecV):
            todo += list(v.items)
            continue
        elif isinstance(v, (tuple, list)):
            todo += list(v)
            continue
        else:
            continue
        if o not in seen:
            seen.add(o)
            if o in I.heap:
                todo.append(I.heap[o])
    return seen


LEAKY = ("cs", "buf")


def owned_blocks(I):
    return {o for o in I.heap if o.startswith(LEAKY) and not o.startswith("cstr") and o not in I.freed}


def call_instances(B):
    """(export, key, builder(I) -> arguments, result kind or None, {argument index: owner change})"""
    mk = lambda kind, t="v": (lambda I: make(B, I, kind, t))
    lit = lambda v: (lambda I: v)
    cs = lambda s: (lambda I: B.cstr(I, s))
    a8 = lambda kind: mk(kind, "second")
    real = lambda n, d=1: (lambda I: lift(dom.Fraction(n, d), True))
    out = []

    def add(name, args, res=None, delta=None, key="", raw=False):
        out.append((name if raw else RT + name, key, args, res, delta or {}))
    for s in (0, 1, 3):
        add("array_create_1d", [lit(8), lit(s)], "array", key=str(s))
        add("tuple_create", [lit(8 * s + 8)], "tuple", key=str(s))
        add("qubit_allocate_array", [lit(s)], "array", key=str(s))
    add("array_concatenate", [mk("array"), a8("array")], "array")
    add("array_get_size_1d", [mk("array")])
    add("array_get_element_ptr_1d", [mk("array"), lit(1)], "element")
    add(SLICE, [mk("array"), lambda I: range_val(B, 0, 1, 1)], "array", raw=True)
    add(SLICE, [mk("array"), lambda I: range_val(B, 1, -1, 0)], "array", key="down", raw=True)
    add(SLICE, [mk("array"), lambda I: range_val(B, 0, 1, -1)], "array", key="empty", raw=True)
    add(RANGE_STR, [lambda I: range_val(B, 0, 2, 9)], "string", raw=True)
    add("string_create", [cs("abc")], "string")
    add("string_create", [cs("")], "string", key="empty")
    add("string_concatenate", [mk("string"), a8("string")], "string")
    add("string_equal", [mk("string"), a8("string")])
    add("string_equal", [mk("string"), mk("string")], key="same text")
    add("string_get_data", [mk("string")], "cstr")
    add("string_get_length", [mk("string")])
    for v in (0, -5, 2 ** 62):
        add("int_to_string", [lit(v)], "string", key=str(v))
    for v in ((1, 1), (3, 2), (-7, 4)):
        add("double_to_string", [real(*v)], "string", key="%d/%d" % v)
    add("double_to_string", [lambda I: A("sym", "d")], "string", key="any")
    for v in (True, False):
        add("bool_to_string", [lit(v)], "string", key=str(v))
    for c in "IXYZ":
        add("pauli_to_string", [lambda I, c=c: K.pauli_val(B, c)], "string", key=c)
    add("bigint_to_string", [mk("bigint")], "string")
    add("qubit_to_string", [lit(3)], "string")
    add("result_to_string", [lit(1)], "string")
    add("bigint_create_i64", [lit(-7)], "bigint")
    add("bigint_create_array", [lit(2), cs("ab")], "bigint")
    add("bigint_get_length", [mk("bigint")])
    for n in ("add", "subtract", "multiply", "divide", "modulus", "bitand", "bitor", "bitxor"):
        add("bigint_" + n, [mk("bigint"), a8("bigint")], "bigint")
    for n in ("negate", "bitnot"):
        add("bigint_" + n, [mk("bigint")], "bigint")
    add("bigint_power", [mk("bigint"), lit(3)], "bigint")
    for n in ("shiftleft", "shiftright"):
        add("bigint_" + n, [mk("bigint"), lit(2)], "bigint")
    for n in ("equal", "greater", "greater_eq"):
        add("bigint_" + n, [mk("bigint"), a8("bigint")])
        add("bigint_" + n, [mk("bigint"), mk("bigint")], key="equal")
    add("callable_create", [lambda I: functable(I), lambda I: functable(I, 2, "mem"), mk("tuple")], "callable")
    add("callable_make_adjoint", [mk("callable")])
    add("callable_make_controlled", [mk("callable")])
    add("message", [mk("string")])
    add("message_record_output", [mk("string")])
    for n in ("array", "tuple", "int"):
        add(n + "_record_output", [lit(2), cs("lab")])
    add("double_record_output", [real(5, 2), cs("lab")])
    add("bool_record_output", [lit(True), cs("lab")])
    add("result_record_output", [lit(0), cs("lab")])
    add("result_record_output", [lit(0), lit(0)], key="no label")
    add("result_update_reference_count", [lit(1), lit(3)])
    add("qubit_release_array", [mk("qarray")], delta={0: -1})
    add("memory_allocate", [lit(16)])
    add("dumpmachine__body", [lit(0)])
    out[-1] = (QIS + "dumpmachine__body",) + out[-1][1:]
    return [i for i in out if B.has(i[0])]


def check_ownership(prog, inst, strong, weak):
    B = back(prog)
    name, key, spec, res, delta = inst

    def entry(I):
        if "qubit" in name or "result" in name or "dumpmachine" in name:
            K.alloc(B, I, 2)
        args = [s(I) for s in spec]
        return ownership(B, I, name, lambda: B.call(I, name, *args), args, res, delta, strong, weak)
    return explore(prog, entry)


def ownership(B, I, name, go, args, res, delta, strong, weak):
    I.cfg.setdefault("opaque_call", lambda I, fv, a: interp.UNIT)
    for o, (s, w) in rcs(I).items():
        I.heap[o] = Agg(None, 0, (strong, weak, I.heap[o].f[2]))
    before = rcs(I)
    vals = {o: I.heap[o].f[2] for o in before}
    blocks = owned_blocks(I)
    objs = {i: models.rc_of_ptr(I, args[i]) for i in delta}
    r = go()
    after = rcs(I)
    want = dict(before)
    for i, d in delta.items():
        o = objs[i]
        if strong + d > 0:
            want[o] = (strong + d, weak)
        else:
            want.pop(o)
    for o in before:
        if after.get(o) != want.get(o):
            return "%s changes an argument's owners and aliases from %s to %s%s" % (
                name, before[o], after.get(o, "released"), "" if before[o] == want.get(o) else ", required %s" % (want.get(o, "released"),))
    new = [o for o in after if o not in before]
    if res in ("array", "tuple", "string", "bigint", "callable"):
        if r == 0:
            return "%s returns null" % name if False else None
        o = owner(I, B, res, r)
        if o in before:
            return "%s returns one of its arguments instead of a new object" % name
        if after.get(o) != (1, 0):
            return "%s returns an object with owners and aliases %s" % (name, after.get(o, "released"))
        hold = reach(I, [I.heap[o].f[2]])
        extra = [x for x in new if x != o and x not in hold]
    else:
        extra = [x for x in new if x not in reach(I, [r] + list(I.globals.values()))]
    if extra:
        return "%s leaves %d counted allocation(s) nobody owns" % (name, len(extra))
    if res != "raw":
        roots = [r] + list(I.globals.values()) + [I.heap[x] for x in I.heap if not x.startswith(LEAKY) and x not in I.freed]
        live = reach(I, roots)
        lost = [x for x in owned_blocks(I) - blocks if x not in live and x in live_blocks(I)]
        if lost:
            return "%s leaves %d block(s) of memory nobody owns" % (name, len(lost))
    if res is None:
        return None
    seen = read_obj(B, I, res, r)
    if res in ("cstr", "element"):
        return None
    for o in list(want):
        for _ in range(strong + (0)):
            if o in rcs(I):
                models.rc_drop(I, o)
    if res != "callable" and read_obj(B, I, res, r) != seen:
        return "the result of %s changes when its arguments are released" % name
    return None


def live_blocks(I):
    return {o for o in I.heap if o not in I.freed}


def check_gate_ownership(prog, inst, strong, weak):
    B = back(prog)

    def entry(I):
        K.alloc(B, I, 3)
        V = K.S.valuer(I)
        K.S.generic(B.sim, I, B.simref(I), None)
        args = [K.marshal(B, I, a, V) for a in inst[1]]
        return ownership(B, I, QIS + inst[0], lambda: B.call(I, QIS + inst[0], *args), args, None, {}, strong, weak)
    outs, comp = interp.explore(prog, models, entry, {"near0": K.S.near_hook(False, False)}, max_paths=400, subst_depth=2)
    return judge(outs, comp, K.fine)


def check_observer_ownership(prog, name, build, strong, weak):
    B = back(prog)

    def entry(I):
        K.alloc(B, I, 3)
        return ownership(B, I, QIS + name, build(B, I), [], None, {}, strong, weak)
    outs, comp = interp.explore(prog, models, entry, {"near0": K.S.near_hook(False, False)}, max_paths=400, subst_depth=2)
    return judge(outs, comp, lambda o: None if o.kind == "panic" else K.fine(o))


def measures():
    def two(word, qs, name="measure__body"):
        def build(B, I):
            p, q = K.marshal(B, I, ("paulis", word), None), B.array(I, list(qs))
            return lambda: B.call(I, QIS + name, p, q)
        return build

    def asrt(form, prob):
        def build(B, I):
            p, q = K.marshal(B, I, ("paulis", "XZ"), None), B.array(I, [1, 0])
            s = B.call(I, RT + "string_create", B.cstr(I, "m"))
            tol = lift(dom.Fraction(1, 100), True)
            if form == "body":
                return lambda: B.call(I, QIS + "assertmeasurementprobability__body", p, q, 0, lift(prob, True), s, tol)
            c = B.array(I, [2])
            t = B.tuple(I, [(p, 8), (q, 8), (0, 8), (lift(prob, True), 8), (s, 8), (tol, 8)])
            return lambda: B.call(I, QIS + "assertmeasurementprobability__ctl", c, t)
        return build
    out = [("measure__body", w, two(w, range(len(w)))) for w in ("Z", "X", "XY", "IZ", "ZZY", "II")]
    out += [("assertmeasurementprobability__" + f, "", asrt(f, dom.Fraction(1, 2))) for f in ("body", "ctl")]
    out += [(n, "", lambda B, I, n=n, a=a: (lambda: B.call(I, QIS + n, *a))) for n, a in
            (("m__body", [0]), ("mz__body", [0, 1]), ("mresetz__body", [0, 1]), ("reset__body", [0]), ("read_result__body", [0]))]
    return out


def obligations_C18(prog, tier):
    B = back(prog)
    obs = []
    conf = [(1, 0), (2, 1)] + ([(1, 1), (3, 0), (2, 2)] if tier == "thorough" else [])
    for inst in call_instances(B):
        for s, w in conf:
            obs.append(("%s:%s:%d,%d" % (inst[0], inst[1], s, w), inst[0], lambda a=(inst, s, w): check_ownership(prog, *a)))
    for inst in K.gate_instances((0, 1, 2), K.TA, (0, 1)) + K.exp_instances((0, 1, 2), K.TA, ["X", "ZY", "IX"]):
        for s, w in conf:
            obs.append(("%s:%d,%d" % (K.iname(inst), s, w), QIS + inst[0], lambda a=(inst, s, w): check_gate_ownership(prog, *a)))
    for n, k, b in measures():
        for s, w in conf:
            obs.append(("%s:%s:%d,%d" % (n, k, s, w), QIS + n, lambda a=(n, b, s, w): check_observer_ownership(prog, *a)))
    # callables: invoking is covered by C22's obligations, which compare ownership before and after every call
    for o in obligations_C22(prog, "quick"):
        if o[0].startswith(("callback", "twice", "deep:", "tuples:", "invoke:C:", "invoke:C-C:", "invoke:A:", "invoke::")):
            obs.append(("invoke/" + o[0], o[1], o[2]))
    for o in obligations_C20(prog, "quick"):
        if ":2 owners:" in o[0] or ":1 owners:" in o[0]:
            obs.append(("copy/" + o[0], o[1], o[2]))
    return obs


# ------------------------------------------------------------------ C23: big integers
BIG = [0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 127, 128, -128, -129, 255, 256, -256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 63 - 1,
       2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 - 1, -2 ** 64, 2 ** 100 + 12345, -2 ** 100 - 7, 3 ** 120]
I64 = [v for v in BIG if -2 ** 63 <= v < 2 ** 63]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


BIN = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": tdiv,
       "modulus": lambda a, b: a - b * tdiv(a, b), "bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b, "bitxor": lambda a, b: a ^ b}
CMP = {"equal": ("Eq", lambda a, b: a == b), "greater": ("Gt", lambda a, b: a > b), "greater_eq": ("Ge", lambda a, b: a >= b)}
UN = {"negate": lambda a: -a, "bitnot": lambda a: ~a}
SH = {"shiftleft": lambda a, n: a << n, "shiftright": lambda a, n: a >> n}
SYMBIN = {"add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y,
          "divide": lambda x, y: A("fn", ("div", x, y), False), "modulus": lambda x, y: x - y * A("fn", ("div", x, y), False),
          "bitand": lambda x, y: A("fn", ("bitand",) + tuple(sorted((x, y), key=repr)), False),
          "bitor": lambda x, y: A("fn", ("bitor",) + tuple(sorted((x, y), key=repr)), False),
          "bitxor": lambda x, y: A("fn", ("bitxor",) + tuple(sorted((x, y), key=repr)), False)}


def big(B, I, v):
    """A big integer object with the given (any size, or symbolic) value."""
    p = B.call(I, RT + "bigint_create_i64", 0)
    o = models.rc_of_ptr(I, p)
    I.heap[o] = I.heap[o].with_field(2, v)
    return p


def value(I, p):
    v = I.deref(p)
    return v.const() if isinstance(v, Poly) and v.is_const() else v


def has_fn(v):
    return isinstance(v, Poly) and any(a.kind == "fn" for a in v.atoms())


def same_big(got, want, what):
    if got == want or isinstance(got, (int, Poly)) and isinstance(want, (int, Poly)) and lift(got) == lift(want):
        return None
    if has_fn(got) or has_fn(want):
        raise Unsupported("%s yields %s, reference %s: equality not decided" % (what, interp.short(got), interp.short(want)))
    return "%s yields %s, required %s" % (what, interp.short(got), interp.short(want))


def is_big(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


def check_big(prog, name, lhs, rhss, ref, extra=None):
    """Concrete operands: constants propagated through the instruction."""
    B = back(prog)

    def entry(I):
        for r in rhss:
            if r == "same":
                a = big(B, I, lhs)
                args, want = [a, a], ref(lhs, lhs)
            elif r is None:
                a = big(B, I, lhs)
                args, want = [a], ref(lhs)
            elif extra == "int":
                a = big(B, I, lhs)
                args, want = [a, r], ref(lhs, r)
            else:
                a = big(B, I, lhs)
                args, want = [a, big(B, I, r)], ref(lhs, r)
            got = B.call(I, RT + "bigint_" + name, *args)
            got = (got if isinstance(got, bool) else I.truth(got)) if isinstance(want, bool) else value(I, got)
            if got != want:
                return "bigint_%s(%s%s) is %s, required %s" % (name, lhs, "" if r is None else ", %s" % r, interp.short(got), want)
            if value(I, args[0]) != lhs or len(args) > 1 and not extra and value(I, args[1]) != (lhs if r == "same" else r):
                return "bigint_%s changes an operand" % name
        return None
    return explore(prog, entry)


def check_big_sym(prog, name):
    B = back(prog)
    x, y = A("sym", "x", False), A("sym", "y", False)

    def entry(I):
        if name in BIN:
            args = [big(B, I, x), big(B, I, y)]
            e = same_big(value(I, B.call(I, RT + "bigint_" + name, *args)), SYMBIN[name](x, y), name)
        elif name in CMP:
            args = [big(B, I, x), big(B, I, y)]
            got = I.truth(B.call(I, RT + "bigint_" + name, *args))
            op = CMP[name][0]
            c = I.known(I._simp(I.compare(op, x, y))) if not isinstance(I.compare(op, x, y), bool) else I.compare(op, x, y)
            if c is None:
                raise Unsupported("the order of the operands is not determined by the branch taken")
            e = None if c == got else "%s is %s where x %s y is %s" % (name, got, op, c)
        elif name in UN:
            args = [big(B, I, x)]
            e = same_big(value(I, B.call(I, RT + "bigint_" + name, *args)), -x if name == "negate" else -x - 1, name)
        elif name == "create":
            p = B.call(I, RT + "bigint_create_i64", x)
            return same_big(value(I, p), x, "bigint_create_i64(x)")
        if e:
            return e
        for p, v in zip(args, (x, y)):
            if value(I, p) != v:
                return "bigint_%s changes an operand" % name
        return None
    return explore(prog, entry)


def le(v):
    n = 1
    while not -(1 << 8 * n - 1) <= v < 1 << 8 * n - 1:
        n += 1
    return list(v.to_bytes(n, "little", signed=True))


def check_big_conv(prog, v):
    B = back(prog)

    def entry(I):
        if v in I64:
            got = value(I, B.call(I, RT + "bigint_create_i64", v))
            if got != v:
                return "bigint_create_i64(%d) holds %s" % (v, got)
        bs = le(v)
        for pad in (0, 1, 3, 9):
            ext = bs + [255 if v < 0 else 0] * pad
            p = Ref(I.alloc(VecV(ext + [0x5a] * 3), "bytes"), (("b", 0),))
            got = value(I, B.call(I, RT + "bigint_create_array", len(ext), p))
            if got != v:
                return "bigint_create_array of the %d bytes of %d holds %s" % (len(ext), v, got)
        x = big(B, I, v)
        n = B.call(I, RT + "bigint_get_length", x)
        d = B.call(I, RT + "bigint_get_data", x)
        rd = [read_byte(I, B, d, i) for i in range(n)]
        if int.from_bytes(bytes(rd), "little", signed=True) != v:
            return "the %d bytes reported for %d denote %d" % (n, v, int.from_bytes(bytes(rd), "little", signed=True))
        p = Ref(I.alloc(VecV(rd + [0]), "bytes"), (("b", 0),))
        if value(I, B.call(I, RT + "bigint_create_array", n, p)) != v:
            return "%d does not survive conversion to bytes and back" % v
        t = B.text(I, B.call(I, RT + "bigint_to_string", x))
        if t != str(v):
            return "the text of %d is %r" % (v, t)
        return None if value(I, x) == v else "a conversion changes its operand"
    return explore(prog, entry)


def read_byte(I, B, d, i):
    if models.byte_ptr(d):
        return I.concrete(models.peek(I, B.at(I, d, i), backlab.BTy(1))) & 255
    return I.concrete(I.load(models.ptr_add(I, d, i))) & 255


def obligations_C23(prog, tier):
    B = back(prog)
    names = list(BIN) + list(CMP) + list(UN) + list(SH) + ["power"]
    missing = [n for n in names if not B.has(RT + "bigint_" + n)]
    if missing:
        raise MissingAnchor("not exported: " + ", ".join("bigint_" + n for n in missing))
    vals = BIG if tier == "quick" else BIG + [v + d for v in (2 ** 16, -2 ** 16, 2 ** 127, -2 ** 128, 10 ** 40) for d in (-1, 0, 1)]
    obs = []
    for n in list(BIN) + list(CMP) + list(UN) + ["create"]:
        obs.append(("symbolic:" + n, RT + "bigint_" + n, lambda n=n: check_big_sym(prog, n)))
    for n, f in BIN.items():
        for a in vals:
            rs = [b for b in vals if not (n in ("divide", "modulus") and b == 0)]
            same = ["same"] if not (n in ("divide", "modulus") and a == 0) else []
            obs.append(("%s:%d" % (n, a), RT + "bigint_" + n, lambda n=n, a=a, rs=rs + same, f=f: check_big(prog, n, a, rs, f)))
    for n, (op, f) in CMP.items():
        for a in vals:
            obs.append(("%s:%d" % (n, a), RT + "bigint_" + n, lambda n=n, a=a, f=f: check_big(prog, n, a, vals + ["same"], f)))
    for n, f in UN.items():
        for a in vals:
            obs.append(("%s:%d" % (n, a), RT + "bigint_" + n, lambda n=n, a=a, f=f: check_big(prog, n, a, [None], f)))
    for n, f in SH.items():
        for a in vals:
            sh = [0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 128, 300] + [2 ** 32, 2 ** 32 + 1] + ([2 ** 63] if n == "shiftright" or a == 0 else [])
            ff = (lambda a, k: (0 if a == 0 else a << k if k <= 1 << 16 else dom.A("fn", ("shl", lift(a), lift(k)), False))) if n == "shiftleft" else (lambda a, k: a >> min(k, 5000))
            obs.append(("%s:%d" % (n, a), RT + "bigint_" + n, lambda n=n, a=a, ff=ff, sh=sh: check_big(prog, n, a, sh, ff, "int")))
    for a in vals:
        ex = [0, 1, 2, 3, 4, 5, 17, 63, 64] + ([2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1] if a in (0, 1, -1) else [])
        ff = lambda a, k: (a ** k if abs(a) > 1 else (1 if k == 0 or a == 1 else 0 if a == 0 else 1 if k % 2 == 0 else -1))
        obs.append(("power:%d" % a, RT + "bigint_power", lambda a=a, ex=ex, ff=ff: check_big(prog, "power", a, ex, ff, "int")))
        obs.append(("convert:%d" % a, RT + "bigint_create_array", lambda a=a: check_big_conv(prog, a)))
    return obs


# ------------------------------------------------------------------ C24: math

UNARY = {"sin": "sin", "cos": "cos", "tan": "tan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "arcsin": "asin", "arccos": "acos",
         "arctan": "atan", "sqrt": "sqrt", "log": "ln"}
POINTS = [0.0, 5e-324, 1e-300, 1e-160, 1e-20, 1e-17, 1e-12, 3e-9, 1e-8, 1e-5, 1e-3, 0.1, 0.3, 0.5, 0.75, 0.9, 0.999999, 1.0, 1.0000001, 1.5, 2.0,
          2.5, 3.0, math.pi / 6, math.pi / 4, math.pi / 2, math.pi, 2 * math.pi, 3.5, 4.5, 10.0, 20.5, 36.0, 100.0, 710.0, 711.0, 1e5, 1e10, 2.0 ** 31, 2.0 ** 52 + 0.5,
          2.0 ** 53, 1e16, 1e18, 2.0 ** 63, 1e19, 1e100, 1e160, 1e300, 1.7976931348623157e308, math.inf]
POINTS = POINTS + [-p for p in POINTS] + [math.nan]
PREDICATES = {"isnan": lambda x: x != x, "isinf": lambda x: x == math.inf, "isnegativeinfinity": lambda x: x == -math.inf}


def ieee(x, y):
    try:
        return math.remainder(x, y)
    except ValueError:
        return math.nan


BINARY = {"arctan2": math.atan2, "ieeeremainder": ieee}


def close(got, want, a=(1.0,)):
    if want != want:
        return got != got
    if math.isinf(want):
        return got == want
    if want == 0 and got == 0:
        return math.copysign(1.0, got) == math.copysign(1.0, want)
    return got == got and not math.isinf(got) and abs(got - want) <= 1e-12 * abs(want) + (1e-15 if min(map(abs, a)) >= 1e-3 else 0)


def num(I, v):
    x = fp.f(v)
    if x is None:
        raise Unsupported("value %s is not a constant" % interp.short(v))
    return x


def check_math(prog, name, pts, ref, boolean=False):
    B = back(prog)
    fn = QIS + name + "__body"

    def entry(I):
        for p in pts:
            a = p if isinstance(p, tuple) else (p,)
            r = B.call(I, fn, *a)
            want = ref(*a)
            if boolean:
                if I.truth(r) != want:
                    return "%s(%r) is %s, required %s" % (name, a[0], I.truth(r), want)
                continue
            got = num(I, r)
            if not close(got, want, a):
                return "%s(%s) is %r, required %r" % (name, ", ".join(map(repr, a)), got, want)
        return None
    return explore(prog, entry)


def witness(I, x):
    """A double inside what the path says about x."""
    lo, hi, ne = I.bounds.get(x, (None, None, frozenset()))
    l = float(lo[0]) if lo else None
    h = float(hi[0]) if hi else None
    if l is None and h is None:
        c = 0.8125
    elif l is None:
        c = h - 0.8125 if hi[1] else h
    elif h is None:
        c = l + 0.8125 if lo[1] else l
    else:
        c = (l + h) / 2
    return c


def check_math_sym(prog, name, ref):
    """Generic argument: every path returns the named function of it; a path that returns something else is tried on a point inside it."""
    B = back(prog)
    fn = QIS + name + "__body"
    x = A("sym", "x")
    wit = []

    def entry(I):
        r = B.call(I, fn, x)
        want = models.f64m(I, ref, [x], None)
        if not isinstance(r, (Poly, int)):
            raise Unsupported("result %s" % interp.short(r))
        if lift(r) == want:
            return None
        wit.append(witness(I, x))
        raise Unsupported("on a branch the result is %s, reference %s" % (interp.short(r), interp.short(want)))
    res = explore(prog, entry)
    if wit:
        r2 = check_math(prog, name, wit, fp.UN[ref])
        if r2.status == BAD:
            return r2
    return res


def check_const(prog, name, pred, what):
    B = back(prog)

    def entry(I):
        r = num(I, B.call(I, QIS + name + "__body"))
        return None if pred(r) else "%s() is %r, required %s" % (name, r, what)
    return explore(prog, entry)


def check_draw(prog, name, lo, hi, flt):
    B = back(prog)
    fn = QIS + name + "__body"

    def entry(I):
        I.panicked = None
        sym = isinstance(lo, Poly)
        if sym:
            le_ = None
        at = len(I.trace)
        r = B.call(I, fn, lo, hi)
        c = I.compare("Gt", lo, hi)
        empty = c if isinstance(c, bool) else I.known(I._simp(c))
        if empty is None:
            raise Unsupported("whether minimum > maximum is not tested on a path that returns")
        if empty:
            return "%s returns a value although minimum > maximum" % name
        rng = [t for t in I.trace[at:] if t[0] in ("range", "random")]
        if not sym and lo == hi and (r == lo or isinstance(r, Poly) and r == up(lo)):
            return None
        if len(rng) != 1:
            return "%s takes %d draws" % (name, len(rng))
        t = rng[0]
        if not isinstance(r, Poly):
            return "%s returns %s" % (name, interp.short(r))
        d = [a for a in r.atoms() if a.kind == ("draw" if t[0] == "range" else "unit")]
        if len(d) != 1:
            return "%s returns %s, which is not the value drawn" % (name, interp.short(r))
        k = Poly({m: v for m, v in r.d.items()}, r.flt)
        bterm = Poly({tuple(p for p in m if p[0] is not d[0]): v for m, v in r.d.items() if any(p == (d[0], 1) for p in m)}, r.flt)
        if any(p[0] is d[0] and p[1] != 1 for m in r.d for p in m):
            raise Unsupported("nonlinear in the value drawn")
        aterm = Poly({m: v for m, v in r.d.items() if not any(p[0] is d[0] for p in m)}, r.flt)
        if t[0] == "range":
            l, h = up(t[1]), up(t[2])
            if not t[3] and not flt:
                h = h - 1
        else:
            l, h = dom.ZERO, dom.ONE
        ends = [(aterm + bterm * l), (aterm + bterm * h)]
        want = [up(lo), up(hi)]
        if ends == want or ends[::-1] == want:
            return None
        return "%s(%s, %s) draws from %s to %s" % (name, interp.short(lo), interp.short(hi), interp.short(ends[0]), interp.short(ends[1]))

    def up(v):
        return lift(dom.Fraction(v), True) if type(v) is float else lift(v)

    def ok(o):
        if o.kind == "panic":
            c = o.interp.compare("Gt", lo, hi)
            e = c if isinstance(c, bool) else o.interp.known(o.interp._simp(c))
            if e:
                return None
            if "not finite" in (o.detail or ""):
                return None
            return "%s fails although minimum <= maximum: %s" % (name, o.detail)
        return K.fine(o)
    return explore(prog, entry, ok=ok)


def obligations_C24(prog, tier):
    B = back(prog)
    obs = []
    for n in list(UNARY) + list(PREDICATES) + list(BINARY) + ["nan", "infinity", "drawrandomint", "drawrandomdouble"]:
        if not B.has(QIS + n + "__body"):
            raise MissingAnchor("not exported: " + QIS + n + "__body")
    pts = POINTS
    if tier == "thorough":
        pts = POINTS + [s * m * 10.0 ** e for s in (1, -1) for m in (1.1, 3.7, 8.9) for e in range(-30, 31)]
    for n, f in UNARY.items():
        fn = QIS + n + "__body"
        obs.append(("generic:" + n, fn, lambda n=n, f=f: check_math_sym(prog, n, f)))
        for p in pts:
            obs.append(("point:%s(%r)" % (n, p), fn, lambda n=n, f=f, p=p: check_math(prog, n, [p], fp.UN[f])))
    for n, f in PREDICATES.items():
        for p in pts:
            obs.append(("point:%s(%r)" % (n, p), QIS + n + "__body", lambda n=n, f=f, p=p: check_math(prog, n, [p], f, True)))
    two = [0.0, 5e-324, 1e-300, 0.1, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 5.0, 7.0, 1e10, 1e16, 1e300, 1.7976931348623157e308, math.inf]
    two = two + [-v for v in two] + [math.nan]
    for n, f in BINARY.items():
        for a in two:
            obs.append(("points:%s(%r, *)" % (n, a), QIS + n + "__body",
                        lambda n=n, f=f, a=a: check_math(prog, n, [(a, b) for b in two], f)))
    obs.append(("nan", QIS + "nan__body", lambda: check_const(prog, "nan", lambda r: r != r, "NaN")))
    obs.append(("infinity", QIS + "infinity__body", lambda: check_const(prog, "infinity", lambda r: r == math.inf, "positive infinity")))
    x, y = A("sym", "min", False), A("sym", "max", False)
    obs.append(("generic:drawrandomint", QIS + "drawrandomint__body", lambda: check_draw(prog, "drawrandomint", x, y, False)))
    u, v = A("sym", "fmin"), A("sym", "fmax")
    obs.append(("generic:drawrandomdouble", QIS + "drawrandomdouble__body", lambda: check_draw(prog, "drawrandomdouble", u, v, True)))
    ints = [0, 1, -1, 5, -7, 100, 2 ** 31, -2 ** 31, 2 ** 32 + 3, 2 ** 62, 2 ** 63 - 1, -2 ** 63]
    for a in ints:
        for b in ints:
            obs.append(("draw:int(%d, %d)" % (a, b), QIS + "drawrandomint__body", lambda a=a, b=b: check_draw(prog, "drawrandomint", a, b, False)))
    fl = [0.0, 0.25, -0.25, 1.0, -3.5, 1e10, 2.0 ** 40, -1e10]
    for a in fl:
        for b in fl:
            obs.append(("draw:double(%r, %r)" % (a, b), QIS + "drawrandomdouble__body", lambda a=a, b=b: check_draw(prog, "drawrandomdouble", a, b, True)))
    return obs


# ------------------------------------------------------------------ C25: recorded output
def recorder(B, I):
    """The thread's output recorder and the value in it."""
    if B.out_key is None:
        raise Unsupported("no thread-local output recorder")
    r = models.key_ref(I, NatV("Key", B.out_key))
    while True:
        v = I.load(r)
        if isinstance(v, NatV) and v.kind in ("RefCell", "Cell"):
            r = Ref(r.obj, r.path + ("v",))
        elif isinstance(v, NatV) and v.kind == "Box":
            r = Ref(v.d)
        elif isinstance(v, Ref):
            r = v
        else:
            return r, v


def method(B, I, name, *args):
    """Call a public method of the recorder's type."""
    r, v = recorder(B, I)
    if not isinstance(v, Agg) or v.ty is None:
        raise Unsupported("recorder %s" % interp.short(v))
    return B.pub(I, v.ty.path + "::" + name, r, *args)


def cbytes(I, bs):
    """A C string in caller memory."""
    return Ref(I.alloc(VecV(list(bs) + [0]), "cstr"), (("b", 0),))


def written(I, at):
    out = StrV()
    for e in I.trace[at:]:
        if e[0] == "write":
            if e[1] != "Stdout":
                raise Wrong("text written to %s" % e[1])
            out = out + (e[2] if isinstance(e[2], StrV) else StrV((e[2],)))
    return out


def same_text(t, parts):
    """Does text t consist of the given parts: str literals and ("disp", value)?"""
    return t == StrV(tuple(parts))


LEG = "qir_stdlib::output_recording::legacy::" + RT
BLEG = "qir_backend::legacy_output::" + RT


def lbl_bytes(l):
    return l.encode("utf-8", "surrogateescape")


def dbl_text(v):
    """The documented text of a double: one decimal for whole numbers."""
    return fp.fixed(v, 1) if math.isfinite(v) and v == math.floor(v) else fp.shortest(v)


class Rec:
    """One recording call: how to make it and the line it must append."""
    def __init__(self, name, call, parts):
        self.name, self.call, self.parts = name, call, parts


def rec(kind, v, label=None):
    """A call of <kind>_record_output with a value and a label (None: null)."""
    word = kind.upper()
    if kind == "bool":
        txt = "true" if v else "false"
    elif kind == "double":
        txt = dbl_text(v)
    elif kind == "result":
        txt = str(int(v))
    else:
        txt = ("disp", v) if not isinstance(v, int) else str(v)
    parts = ["OUTPUT\t%s\t" % word, txt] + ([] if label is None else ["\t", label]) + ["\n"]
    return Rec("%s(%s)%s" % (kind, v, "" if label is None else repr(label)),
               lambda B, I: B.call(I, RT + kind + "_record_output", v, 0 if label is None else cbytes(I, lbl_bytes(label))), parts)


def rec_msg(text, fn="message"):
    def call(B, I):
        s = B.call(I, RT + "string_create", cbytes(I, text.encode()))
        B.call(I, RT + fn, s)
    return Rec("%s(%r)" % (fn, text), call, ["INFO\t", models.escape_default(text), "\n"])


def rec_legacy(name, v=None):
    if name.endswith(("start", "end")):
        parts = ["RESULT\t", name.upper(), "\n"]
    elif name in ("array", "tuple"):
        parts = ["OUTPUT\t%s\t" % name.upper(), str(v), "\n"]
    elif name == "double":
        parts = ["RESULT\t", dbl_text(v), "\n"]
    elif name == "bool":
        parts = ["RESULT\t", "true" if v else "false", "\n"]
    else:
        parts = ["RESULT\t", str(int(v)) if isinstance(v, int) else ("disp", v), "\n"]
    base = BLEG if name == "result" else LEG
    return Rec("legacy %s(%s)" % (name, "" if v is None else v),
               lambda B, I: B.pub(I, base + name + "_record_output", *([] if v is None else [v])), parts)


def check_records(prog, recs, buffered, results=()):
    B = back(prog)

    def entry(I):
        for i, b in results:
            B.call(I, RT + "write_result", b, i)
        if buffered:
            method(B, I, "use_std_out", False)
        want, at = [], len(I.trace)
        for k, c in enumerate(recs):
            c.call(B, I)
            want += c.parts
            try:
                if buffered:
                    if len(written(I, at).parts):
                        return "%s writes to standard output while it is redirected to the buffer" % c.name
                else:
                    t = written(I, at)
                    if not same_text(t, want):
                        return "after %s the output is %s, required %s" % (c.name, show(t), show(StrV(tuple(want))))
            except Wrong as e:
                return "%s: %s" % (c.name, e)
        if buffered:
            t = drained(B, I)
            if not same_text(t, want):
                return "%s leaves %s in the buffer, required %s" % (recs[-1].name, show(t), show(StrV(tuple(want))))
            t = drained(B, I)
            if t.parts and t.lit() != "":
                return "draining the buffer leaves %s in it" % show(t)
            method(B, I, "use_std_out", True)
            recs[0].call(B, I)
            try:
                t = written(I, at)
            except Wrong as e:
                return "%s" % e
            if not same_text(t, recs[0].parts):
                return "back on standard output %s writes %s" % (recs[0].name, show(t))
        return None
    return explore(prog, entry)


def drained(B, I):
    it = models.to_it(I, method(B, I, "drain"))
    return cmodels.bytes_text(models.it_all(I, it, 100000))


def show(t):
    return repr(t.lit() if t.lit() is not None else "".join(p if isinstance(p, str) else "<%s>" % interp.short(p[1]) for p in t.parts))


LABELS = [None, "", "a", "0_t1", "two words", "tab\tinside", "new\nline", "caf\u00e9", "\udcff\udcfe", "x" * 70, "%s{}", "OUTPUT"]
INTS = [0, 1, -1, 9, 10, 42, -42, 2 ** 31, -2 ** 31, 2 ** 32, 10 ** 18, 2 ** 63 - 1, -2 ** 63]
DBLS = [0.0, -0.0, 1.0, -1.0, 0.5, 42.4533, 42.0, 42.000000000000001, 0.1, 1e-7, 1e16, 1e21, 1e22, 1e300, -2.5, 1 / 3, 3.141592653589793, 1e-300, 5e-324,
        1.7976931348623157e308, 123456789.125, 0.9999999999999999, 1.0000000000000002, -0.9999999999999999, 4503599627370495.5, 9007199254740993.0,
        math.inf, -math.inf, math.nan]
TEXTS = ["", "a", "Message", "two words", "tab\tx", "line\nfeed", "quote \" and '", "back\\slash", "caf\u00e9 \u2603 \U0001f600", "\x01\x7f", "OUTPUT\tX", "%d {}"]


def obligations_C25(prog, tier):
    B = back(prog)
    kinds = ["array", "tuple", "int", "double", "bool", "result"]
    for k in kinds:
        if not B.has(RT + k + "_record_output"):
            raise MissingAnchor("not exported: " + RT + k + "_record_output")
    leg = [n for n in ("array_start", "array_end", "tuple_start", "tuple_end", "int", "double", "bool", "array", "tuple", "result")
           if (BLEG if n == "result" else LEG) + n + "_record_output" in prog.by_path]
    obs = []
    n, x = A("sym", "n", False), A("sym", "x")

    def add(name, anchor, recs, results=()):
        for b in (False, True):
            obs.append((name + (" buffered" if b else ""), RT + anchor, lambda recs=recs, b=b: check_records(prog, recs, b, results)))
    for k in ("array", "tuple", "int"):
        for l in LABELS:
            add("record %s n %r" % (k, l), k + "_record_output", [rec(k, n, l)])
        for v in INTS:
            for l in (None, "lbl", ""):
                add("record %s %d %r" % (k, v, l), k + "_record_output", [rec(k, v, l)])
    for v in (False, True):
        for l in LABELS:
            add("record bool %s %r" % (v, l), "bool_record_output", [rec("bool", v, l)])
            add("record result %s %r" % (v, l), "result_record_output", [rec("result", int(v), l)])
    for i in (0, 1, 2, 63, 64, 65, 200):
        for stored in (False, True):
            for l in (None, "r"):
                c = rec("result", int(stored), l)
                c.call = lambda B, I, i=i, l=l: B.call(I, RT + "result_record_output", i, 0 if l is None else cbytes(I, lbl_bytes(l)))
                add("record stored result %d=%s %r" % (i, stored, l), "result_record_output", [c], [(i, stored)])
    for v in DBLS:
        for l in (None, "lbl"):
            add("record double %r %r" % (v, l), "double_record_output", [rec("double", v, l)])
    for t in TEXTS:
        add("message %r" % t, "message", [rec_msg(t)])
        if B.has(RT + "message_record_output"):
            add("message record %r" % t, "message_record_output", [rec_msg(t, "message_record_output")])
    for name in leg:
        vs = {"int": INTS + [n], "double": DBLS, "bool": [False, True], "array": INTS[:8], "tuple": INTS[:8], "result": [0, 1]}.get(name, [None])
        for v in vs:
            add("legacy %s %s" % (name, v), name + "_record_output", [rec_legacy(name, v)])
    some = [rec("array", 2, "arr"), rec("int", n, None), rec("tuple", 1, None), rec("bool", True, "b"), rec("double", 2.0, None),
            rec("result", 1, "r"), rec("result", 0, None), rec_msg("hi\n"), rec("int", -5, "")]
    some += [rec_legacy("array_start"), rec_legacy("int", 7), rec_legacy("array_end")] if "array_start" in leg and "int" in leg else []
    for a in some:
        for b in some:
            add("order %s, %s" % (a.name, b.name), "int_record_output", [a, b])
    add("order all", "int_record_output", some)
    add("order all reversed", "int_record_output", some[::-1])
    if tier == "thorough":
        for a, b, c in itertools.permutations(some, 3):
            obs.append(("order %s, %s, %s" % (a.name, b.name, c.name), RT + "int_record_output",
                        lambda r=[a, b, c]: check_records(prog, r, True)))
    return obs


# ------------------------------------------------------------------ C26: strings
def cstring(B, I, bs):
    return B.call(I, RT + "string_create", cbytes(I, bs))


def expect_text(B, I, p, want, what):
    """Runtime string p holds exactly the wanted text (a str, or a list of parts)."""
    t = cmodels.as_text(I, B.string(I, p))
    w = StrV(tuple(want) if isinstance(want, (list, tuple)) else (want,))
    if t != w:
        return "%s yields %s, required %s" % (what, show(t), show(w))
    if w.lit() is not None:
        n = B.call(I, RT + "string_get_length", p)
        m = len(w.lit().encode("utf-8", "surrogateescape"))
        if n != m:
            return "%s has reported length %s, required %d" % (what, interp.short(n), m)
    s = rcs(I).get(owner(I, B, "string", p))
    if s is None or s[0] != 1:
        return "%s is not owned exactly once" % what
    return None


def check_to_string(prog, fn, mk, want):
    B = back(prog)

    def entry(I):
        p = B.call(I, fn, *mk(B, I))
        return expect_text(B, I, p, want, fn)
    return explore(prog, entry)


def check_string_create(prog, bs):
    """Creating a string copies the bytes up to the terminator and keeps no reference to the source."""
    B = back(prog)

    def entry(I):
        src = Ref(I.alloc(VecV(list(bs) + [0, 88, 89]), "cstr"), (("b", 0),))
        p = B.call(I, RT + "string_create", src)
        w = bytes(bs).decode("utf-8", "surrogateescape")
        if I.load(Ref(src.obj)).items != tuple(list(bs) + [0, 88, 89]):
            return "creating a string changes its source"
        I.store(Ref(src.obj), VecV([90] * (len(bs) + 3)))
        return expect_text(B, I, p, w, "string_create")
    return explore(prog, entry)


def check_text_concat(prog, a, b, same=False):
    B = back(prog)

    def entry(I):
        x = cstring(B, I, a)
        y = x if same else cstring(B, I, b)
        p = B.call(I, RT + "string_concatenate", x, y)
        bb = a if same else b
        e = expect_text(B, I, p, (bytes(a) + bytes(bb)).decode("utf-8", "surrogateescape"), "concatenating %r and %r" % (a, bb))
        e = e or expect_text(B, I, x, bytes(a).decode("utf-8", "surrogateescape"), "the first operand afterwards")
        if e or same:
            return e
        return expect_text(B, I, y, bytes(b).decode("utf-8", "surrogateescape"), "the second operand afterwards")
    return explore(prog, entry)


def check_equal(prog, a, b, same=False):
    B = back(prog)

    def entry(I):
        x = cstring(B, I, a)
        y = x if same else cstring(B, I, b)
        v = I.truth(B.call(I, RT + "string_equal", x, y))
        if v != (same or bytes(a) == bytes(b)):
            return "%r equals %r: %s" % (a, a if same else b, v)
        return None
    return explore(prog, entry)


def check_symbolic_strings(prog, what):
    """Strings of unknown content: concatenation keeps both in order."""
    B = back(prog)

    def entry(I):
        def sym(nm):
            return B.call(I, RT + "int_to_string", A("sym", nm, False))
        n, m = A("sym", "n", False), A("sym", "m", False)
        x, y = sym("n"), sym("m")
        p = B.call(I, RT + "string_concatenate", x, y)
        e = expect_text(B, I, p, [("disp", n), ("disp", m)], "concatenation")
        p2 = B.call(I, RT + "string_concatenate", p, x)
        return e or expect_text(B, I, p2, [("disp", n), ("disp", m), ("disp", n)], "concatenation")
    return explore(prog, entry)


def range_agg(B, I, fn, vals):
    """A range value in the ABI of the function's parameter."""
    t = B.ex(fn).locals[1]
    f = [None] * 3
    names = [n for n, _ in t.variants[0][2]]
    for n, v in zip(("start", "step", "end"), vals):
        if n not in names:
            raise Unsupported("range field " + n)
        f[names.index(n)] = v
    return Agg(t, "Range", tuple(f))


BYTES = [b"", b"a", b"Data", b"Not Data", b"two words", b"caf\xc3\xa9", b"\xff\xfe", b"\xc3", b"\xa9", b"x" * 300, b"\t\n\\\"", b"Dat", b"data", b"Data "]


def obligations_C26(prog, tier):
    B = back(prog)
    obs = []
    n = A("sym", "n", False)

    def add(name, fn, mk, want):
        if B.has(fn):
            obs.append((name, fn, lambda: check_to_string(prog, fn, mk, want)))
    add("int n", RT + "int_to_string", lambda B, I: (n,), [("disp", n)])
    ints = INTS + [10 ** k for k in range(19)] + [-10 ** k for k in range(19)]
    for v in ints:
        add("int %d" % v, RT + "int_to_string", lambda B, I, v=v: (v,), str(v))
    for v in DBLS + [float("%de%d" % (m, e)) for m in (1, 25, -123) for e in range(-12, 24, 1 if tier == "thorough" else 3)]:
        add("double %r" % v, RT + "double_to_string", lambda B, I, v=v: (v,), dbl_text(v))
    for v in (False, True):
        add("bool %s" % v, RT + "bool_to_string", lambda B, I, v=v: (v,), "true" if v else "false")
    for c in "IXYZ":
        add("pauli " + c, RT + "pauli_to_string", lambda B, I, c=c: (K.pauli_val(B, c),), "Pauli" + c)
    for v in (0, 1):
        add("result %d" % v, RT + "result_to_string",
            lambda B, I, v=v: (B.call(I, RT + "result_get_" + ("one" if v else "zero")),), "One" if v else "Zero")
    for v in (0, 1, 2, 9, 10, 63, 64, 1000, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        add("qubit %d" % v, RT + "qubit_to_string", lambda B, I, v=v: (v,), str(v))
    bigs = [0, 1, -1, 255, 256, -256, 2 ** 63, -2 ** 63, 2 ** 64, -2 ** 64, 10 ** 30, -10 ** 30, 2 ** 200 + 1, -(2 ** 200) - 1]
    for v in bigs:
        def mk(B, I, v=v):
            k = max(1, (v.bit_length() + 8) // 8)
            bs = v.to_bytes(k, "little", signed=True)
            return (B.call(I, RT + "bigint_create_array", k, Ref(I.alloc(VecV(list(bs)), "bytes"), (("b", 0),))),)
        add("bigint %d" % v, RT + "bigint_to_string", mk, str(v))
    if B.has(RANGE_STR):
        vals = [0, 1, -1, 7, -12, 2 ** 63 - 1, -2 ** 63]
        for s, st, e in itertools.product(vals, repeat=3):
            w = "%d..%d" % (s, e) if st == 1 else "%d..%d..%d" % (s, st, e)
            add("range %s" % w, RANGE_STR, lambda B, I, r=(s, st, e): (range_agg(B, I, RANGE_STR, r),), w)
        a, b, c = (A("sym", x, False) for x in ("start", "step", "end"))
        obs.append(("range a..b..c", RANGE_STR, lambda: check_range_sym(prog, a, b, c)))
        for k in (2, -1, 10):
            add("range a..%d..c" % k, RANGE_STR, lambda B, I, k=k: (range_agg(B, I, RANGE_STR, (a, k, c)),), [("disp", a), "..%d.." % k, ("disp", c)])
        add("range a..c", RANGE_STR, lambda B, I: (range_agg(B, I, RANGE_STR, (a, 1, c)),), [("disp", a), "..", ("disp", c)])
    for x in BYTES:
        obs.append(("create %r" % x[:20], RT + "string_create", lambda x=x: check_string_create(prog, x)))
        for y in BYTES:
            obs.append(("concat %r %r" % (x[:20], y[:20]), RT + "string_concatenate", lambda x=x, y=y: check_text_concat(prog, x, y)))
            obs.append(("equal %r %r" % (x[:20], y[:20]), RT + "string_equal", lambda x=x, y=y: check_equal(prog, x, y)))
        obs.append(("concat self %r" % x[:20], RT + "string_concatenate", lambda x=x: check_text_concat(prog, x, x, True)))
        obs.append(("equal self %r" % x[:20], RT + "string_equal", lambda x=x: check_equal(prog, x, x, True)))
    obs.append(("concat symbolic", RT + "string_concatenate", lambda: check_symbolic_strings(prog, None)))
    # every single byte value
    for k in range(1, 256, 1):
        obs.append(("create byte %d" % k, RT + "string_create", lambda k=k: check_string_create(prog, bytes([65, k, 66]))))
        if tier == "thorough":
            obs.append(("concat byte %d" % k, RT + "string_concatenate", lambda k=k: check_text_concat(prog, bytes([k]), bytes([65, k]))))
    for t in TEXTS:
        for fn in ("message", "message_record_output"):
            if B.has(RT + fn):
                obs.append(("%s %r" % (fn, t), RT + fn, lambda t=t, fn=fn: check_records(prog, [rec_msg(t, fn)], False)))
    if B.has(RT + "fail"):
        for t in TEXTS:
            obs.append(("fail %r" % t, RT + "fail", lambda t=t: check_fail(prog, t)))
    return obs


def check_range_sym(prog, a, b, c):
    """A range of unknown bounds: the step is printed exactly when it is not one."""
    B = back(prog)

    def entry(I):
        p = B.call(I, RANGE_STR, range_agg(B, I, RANGE_STR, (a, b, c)))
        t = cmodels.as_text(I, B.string(I, p))
        full = StrV((("disp", a), "..", ("disp", b), "..", ("disp", c)))
        short = StrV((("disp", a), "..", ("disp", c)))
        one = I.known(I._simp(I.compare("Eq", b, 1)))
        if t == full and one is not True or t == short and one is True:
            return None
        return "a range prints as %s on a path where its step is%s one" % (show(t), "" if one else " not" if one is False else " possibly")
    return explore(prog, entry)


def check_fail(prog, text):
    """fail reports the message and never returns."""
    B = back(prog)

    def entry(I):
        s = cstring(B, I, text.encode())
        I.cfg["fail_at"] = len(I.trace)
        B.call(I, RT + "fail", s)
        return "fail returns"

    def ok(o):
        if o.kind != "panic":
            return o.value if o.kind == "return" else "%s: %s" % (o.kind, o.detail)
        t = StrV()
        for e in o.interp.trace:
            if e[0] == "write" and e[1] == "Stdout":
                t = t + e[2]
        want = "INFO\t%s\n" % models.escape_default(text)
        if t.lit() != want:
            return "fail prints %s, required %r" % (show(t), want)
        return None
    return explore(prog, entry, ok=ok)
