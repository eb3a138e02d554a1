"""Transfer functions for further parts of std: double-ended queues, ordered maps and sets, heaps, map entries, slice and
text methods, formatting of user types, calls through trait objects. Imported by models.py, which it extends."""
import functools

import dom
import fp
import clapmodels
import models as M
from dom import Cond, Poly, lift
from interp import Agg, FnItem, INT_BITS, NatV, Opaque, PathCut, Panic, Ref, StrV, UB, UNIT, Unsupported, VecV, short
from models import ITER, NONE, T, TABLE, VECM, It, clone_value, cmp_value, collect, err, eq_value, fref, hkey, it_all, it_step, ok, opt, ordering, some, to_it, tup, vecm

END = M.END


def order_of(r):
    """-1, 0, 1 for an Ordering value."""
    if isinstance(r, Agg) and r.ty is not None and r.ty.variants:
        d = r.ty.variants[r.var][1]
        return d if d in (-1, 0, 1) else -1
    raise Unsupported("ordering %s" % short(r))


def by_key(I, f):
    return lambda x: I.call_callable(f, [I.mkref(x) if not isinstance(x, Ref) else x])


# ---------------------------------------------------------------- slices and vectors
def refs(I, a):
    b, lo, hi = M.slice_ref(I, a)
    return [Ref(b.obj, b.path + (i,)) for i in range(lo, hi)], b, lo, hi


def dedup(I, a, same):
    r, v = M.as_vec(I, a)
    n = len(v.items)
    keep = []
    for i in range(n):
        if not keep or not same(Ref(r.obj, r.path + (i,)), Ref(r.obj, r.path + (keep[-1],))):
            keep.append(i)
    v = I.load(r)
    I.store(r, VecV([v.items[i] for i in keep]))
    return UNIT


@vecm("dedup_by")
def _(I, a, info):
    f = fref(I, a[1])
    return dedup(I, a[0], lambda x, y: I.truth(I.call_callable(f, [x, y])))


@vecm("dedup_by_key")
def _(I, a, info):
    f = fref(I, a[1])
    return dedup(I, a[0], lambda x, y: I.truth(eq_value(I, I.call_callable(f, [x]), I.call_callable(f, [y]))))


@vecm("dedup")
def _(I, a, info):
    return dedup(I, a[0], lambda x, y: I.truth(eq_value(I, x, y)))


@vecm("rotate_left", "rotate_right")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    k = I.concrete(a[1], "rotation")
    n = hi - lo
    if k > n:
        raise Panic("rotation beyond the length")
    if "rotate_right" in info.path:
        k = n - k
    M.set_items(I, a[0], lambda xs: xs[k:] + xs[:k])
    return UNIT


@vecm("splice")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    lo, hi = M.range_bounds(I, a[1], len(v.items))
    if lo > hi or hi > len(v.items):
        raise Panic("range out of bounds")
    new = it_all(I, to_it(I, a[2]))
    v = I.load(r)
    I.store(r, VecV(v.items[:lo] + tuple(new) + v.items[hi:]))
    return It("list", v.items[lo:hi], 0, hi - lo)


def split_runs(I, a, f, keep=False):
    es, b, lo, hi = refs(I, a)
    out, s = [], lo
    for i, e in enumerate(es):
        if I.truth(I.call_callable(f, [e])):
            out.append(Ref(b.obj, b.path, (s, lo + i + (1 if keep else 0))))
            s = lo + i + 1
    if not keep or s < hi:
        out.append(Ref(b.obj, b.path, (s, hi)))
    return It("list", tuple(out), 0, len(out))


@vecm("split", "split_mut")
def _(I, a, info):
    return split_runs(I, a[0], fref(I, a[1]))


@vecm("split_inclusive", "split_inclusive_mut")
def _(I, a, info):
    return split_runs(I, a[0], fref(I, a[1]), True)


@vecm("ends_with")
def _(I, a, info):
    x, y = I.slice_items(a[0]), I.slice_items(a[1])
    return len(x) >= len(y) and eq_value(I, VecV(x[len(x) - len(y):]), VecV(y))


@vecm("strip_prefix", "strip_suffix")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    y = I.slice_items(a[1])
    x = I.slice_items(a[0])
    pre = "prefix" in info.path
    if len(x) < len(y) or not I.truth(eq_value(I, VecV(x[:len(y)] if pre else x[len(x) - len(y):]), VecV(y))):
        return NONE
    return some(Ref(b.obj, b.path, (lo + len(y), hi) if pre else (lo, hi - len(y))))


@vecm("copy_within")
def _(I, a, info):
    xs = I.slice_items(a[0])
    s, e = M.range_bounds(I, a[1], len(xs))
    d = I.concrete(a[2], "index")
    if s > e or e > len(xs) or d > len(xs) - (e - s):
        raise Panic("copy_within out of bounds")
    M.set_items(I, a[0], lambda v: v[:d] + list(xs[s:e]) + v[d + e - s:])
    return UNIT


@vecm("extend_from_within")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    s, e = M.range_bounds(I, a[1], len(v.items))
    if s > e or e > len(v.items):
        raise Panic("range out of bounds")
    I.store(r, VecV(v.items + tuple(clone_value(I, x) for x in v.items[s:e])))
    return UNIT


@vecm("swap_with_slice")
def _(I, a, info):
    x, y = I.slice_items(a[0]), I.slice_items(a[1])
    if len(x) != len(y):
        raise Panic("swap_with_slice: length mismatch")
    M.set_items(I, a[0], lambda _: list(y))
    M.set_items(I, a[1], lambda _: list(x))
    return UNIT


@vecm("select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    k = I.concrete(a[1], "index")
    if k >= hi - lo:
        raise Panic("select_nth_unstable index out of bounds")
    nm = info.path.rsplit("::", 1)[-1]
    {"select_nth_unstable": VECM["sort"], "select_nth_unstable_by": VECM["sort_by"], "select_nth_unstable_by_key": VECM["sort_by_key"]}[nm](I, [a[0]] + list(a[2:]), info)
    return tup(Ref(b.obj, b.path, (lo, lo + k)), Ref(b.obj, b.path + (lo + k,)), Ref(b.obj, b.path, (lo + k + 1, hi)))


@vecm("rchunks", "rchunks_mut", "rchunks_exact", "rchunks_exact_mut")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    k = I.concrete(a[1], "chunk size")
    if k == 0:
        raise Panic("chunk size must be non-zero")
    out = []
    while hi > lo and not ("exact" in info.path.rsplit("::", 1)[-1] and hi - lo < k):
        out.append(Ref(b.obj, b.path, (max(lo, hi - k), hi)))
        hi = max(lo, hi - k)
    return It("list", tuple(out), 0, len(out))


def run_search(I, xs, c):
    """std's binary search over comparisons with the target: Ok(index) or Err(insertion point)."""
    size = len(xs)
    if size == 0:
        return err(0)
    base = 0
    while size > 1:
        half = size // 2
        if c(xs[base + half]) <= 0:
            base += half
        size -= half
    r = c(xs[base])
    return ok(base) if r == 0 else err(base + (1 if r < 0 else 0))


@vecm("binary_search")
def _(I, a, info):
    return run_search(I, refs(I, a[0])[0], lambda x: cmp_value(I, x, a[1]))


@vecm("binary_search_by")
def _(I, a, info):
    f = fref(I, a[1])
    return run_search(I, refs(I, a[0])[0], lambda x: order_of(I.call_callable(f, [x])))


@vecm("binary_search_by_key")
def _(I, a, info):
    f = fref(I, a[2])
    return run_search(I, refs(I, a[0])[0], lambda x: cmp_value(I, I.call_callable(f, [x]), a[1]))


@vecm("partition_point")
def _(I, a, info):
    f = fref(I, a[1])
    r = run_search(I, refs(I, a[0])[0], lambda x: -1 if I.truth(I.call_callable(f, [x])) else 1)
    return r.f[0]


@vecm("join")
def _(I, a, info):
    xs = [I.deref(x) for x in I.slice_items(a[0])]
    sep = I.deref(a[1])
    if (xs and isinstance(xs[0], StrV)) or isinstance(sep, StrV):
        s = StrV()
        for i, x in enumerate(xs):
            s = s + (M.cmodels.to_text(I, a[1]) if i else StrV()) + M.cmodels.to_text(I, x)
        return s
    out = []
    for i, x in enumerate(xs):
        if i:
            out += [sep] if not isinstance(sep, VecV) else list(sep.items)
        out += [clone_value(I, y) for y in I.slice_items(x)]
    return VecV(out)


@vecm("repeat")
def _(I, a, info):
    n = I.concrete(a[1], "repetitions")
    v = I.deref(a[0])
    if isinstance(v, StrV):
        return StrV(v.parts * n)
    return VecV([clone_value(I, x) for _ in range(n) for x in I.slice_items(a[0])])


@vecm("extract_if")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    lo, hi = M.range_bounds(I, a[1], len(v.items)) if len(a) > 2 else (0, len(v.items))
    f = fref(I, a[-1])
    hit = [i for i in range(lo, hi) if I.truth(I.call_callable(f, [Ref(r.obj, r.path + (i,))]))]
    v = I.load(r)
    I.store(r, VecV([x for i, x in enumerate(v.items) if i not in hit]))
    return It("list", tuple(v.items[i] for i in hit), 0, len(hit))


@vecm("map")
def _(I, a, info):
    f = fref(I, a[1])
    return VecV([I.call_callable(f, [x]) for x in I.slice_items(a[0])])


@vecm("each_ref", "each_mut")
def _(I, a, info):
    return VecV(refs(I, a[0])[0])


@vecm("chunk_by", "chunk_by_mut")
def _(I, a, info):
    f = fref(I, a[1])
    es, b, lo, hi = refs(I, a[0])
    out, s = [], lo
    for i in range(1, len(es)):
        if not I.truth(I.call_callable(f, [es[i - 1], es[i]])):
            out.append(Ref(b.obj, b.path, (s, lo + i)))
            s = lo + i
    if es:
        out.append(Ref(b.obj, b.path, (s, hi)))
    return It("list", tuple(out), 0, len(out))


@vecm("pop_if")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    if not v.items or not I.truth(I.call_callable(fref(I, a[1]), [Ref(r.obj, r.path + (len(v.items) - 1,))])):
        return NONE
    return VECM["pop"](I, a[:1], info)


@vecm("is_sorted")
def _(I, a, info):
    xs = I.slice_items(a[0])
    return all(cmp_value(I, x, y) <= 0 for x, y in zip(xs, xs[1:]))


@vecm("is_sorted_by_key")
def _(I, a, info):
    f = fref(I, a[1])
    xs = [I.call_callable(f, [x]) for x in refs(I, a[0])[0]]
    return all(cmp_value(I, x, y) <= 0 for x, y in zip(xs, xs[1:]))


@vecm("first_chunk", "last_chunk")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    t = info.dest_ty.args[0] if info.dest_ty is not None and info.dest_ty.args else None
    t = t.args[0] if t is not None and t.k == "ref" and t.args else t.elem if t is not None and t.elem is not None else None
    if t is None or t.n is None:
        return NotImplemented
    if hi - lo < t.n:
        return NONE
    return some(Ref(b.obj, b.path, (lo, lo + t.n) if "first" in info.path else (hi - t.n, hi)))


@vecm("sort", "sort_unstable")
def _(I, a, info):
    M.set_items(I, a[0], lambda xs: sorted(xs, key=functools.cmp_to_key(lambda x, y: cmp_value(I, x, y))))
    return UNIT


@vecm("sort_by", "sort_unstable_by")
def _(I, a, info):
    f = fref(I, a[1])
    M.set_items(I, a[0], lambda xs: sorted(xs, key=functools.cmp_to_key(lambda x, y: order_of(I.call_callable(f, [I.mkref(x), I.mkref(y)])))))
    return UNIT


@vecm("split_off")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    n = I.concrete(a[1], "index")
    if n > len(v.items):
        raise Panic("split_off index out of bounds")
    I.store(r, VecV(v.items[:n]))
    return VecV(v.items[n:])


_drain = VECM["drain"]


@vecm("drain")
def _(I, a, info):
    if len(a) > 1:
        t = I.deref(a[0])
        if isinstance(t, VecV):
            lo, hi = M.range_bounds(I, a[1], len(t.items))
            if lo > hi or hi > len(t.items):
                raise Panic("drain range out of bounds")
    return _drain(I, a, info)


for _n in ("into_flattened", "as_flattened"):
    VECM[_n] = lambda I, a, info: VecV([y for x in I.slice_items(a[0]) for y in I.slice_items(x)])


# ---------------------------------------------------------------- queues (held as vectors)
DEQ = {}


def deq(*names):
    return M.meth(DEQ, *names)


@deq("push_back")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    I.store(r, VecV(v.items + (a[1],)))
    return UNIT


@deq("push_front")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    I.store(r, VecV((a[1],) + v.items))
    return UNIT


@deq("pop_back", "pop_front")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    if not v.items:
        return NONE
    f = info.path.endswith("front")
    I.store(r, VecV(v.items[1:] if f else v.items[:-1]))
    return some(v.items[0 if f else -1])


@deq("front", "front_mut", "back", "back_mut")
def _(I, a, info):
    es = refs(I, a[0])[0]
    return some(es[0 if "front" in info.path.rsplit("::", 1)[-1] else -1]) if es else NONE


@deq("remove")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    i = I.concrete(a[1], "index")
    if i >= len(v.items):
        return NONE
    I.store(r, VecV(v.items[:i] + v.items[i + 1:]))
    return some(v.items[i])


@deq("swap_remove_back", "swap_remove_front")
def _(I, a, info):
    r, v = M.as_vec(I, a[0])
    i = I.concrete(a[1], "index")
    if i >= len(v.items):
        return NONE
    it = list(v.items)
    x = it[i]
    k = -1 if info.path.endswith("back") else 0
    it[i] = it[k]
    del it[k]
    I.store(r, VecV(it))
    return some(x)


@deq("make_contiguous")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    return Ref(b.obj, b.path, (lo, hi))


@deq("as_slices", "as_mut_slices")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    return tup(Ref(b.obj, b.path, (lo, hi)), Ref(b.obj, b.path, (hi, hi)))


@deq("range", "range_mut")
def _(I, a, info):
    b, lo, hi = M.slice_ref(I, a[0])
    s, e = M.range_bounds(I, a[1], hi - lo)
    if s > e or e > hi - lo:
        raise Panic("range out of bounds")
    return It("slice", b, lo + s, lo + e)


def deqm(I, name, a, info):
    if name in ("as_ptr", "as_mut_ptr"):
        return NotImplemented
    h = DEQ.get(name) or VECM.get(name)
    return h(I, a, info) if h is not None else NotImplemented


# ---------------------------------------------------------------- ordered maps and sets
def arrange(I, v):
    """The entries of an ordered map or set in key order."""
    if v.kind == "Map":
        return NatV("Map", tuple(sorted(v.d, key=functools.cmp_to_key(lambda x, y: cmp_value(I, x[0], y[0])))))
    return NatV("Set", tuple(sorted(v.d, key=functools.cmp_to_key(lambda x, y: cmp_value(I, x, y)))))


def rearrange(I, r, kind):
    if isinstance(r, Ref):
        try:
            q, v = M.nat_at(I, r, kind)
        except Unsupported:
            return
        I.store(q, arrange(I, v))


def in_range(I, rng, k):
    """k within a range of keys."""
    p = rng.ty.path.split("::")[-1] if isinstance(rng, Agg) and rng.ty is not None and rng.ty.path else None
    f = rng.f if isinstance(rng, Agg) else ()
    if p == "RangeFull":
        return True
    if p in ("Range", "RangeInclusive"):
        hi = cmp_value(I, k, f[1])
        return cmp_value(I, k, f[0]) >= 0 and (hi < 0 or (hi == 0 and p == "RangeInclusive"))
    if p == "RangeFrom":
        return cmp_value(I, k, f[0]) >= 0
    if p == "RangeTo":
        return cmp_value(I, k, f[0]) < 0
    if p == "RangeToInclusive":
        return cmp_value(I, k, f[0]) <= 0
    raise Unsupported("range of keys %s" % short(rng))


def pair_ref(I, r, k):
    return tup(I.mkref(k, "k"), Ref(r.obj, r.path + (("k", k),)))


def btm(I, name, a, info):
    if name in ("first_key_value", "last_key_value", "range", "range_mut", "pop_first", "pop_last", "first_entry", "last_entry"):
        r, v = M.nat_at(I, a[0], "Map")
        if name in ("range", "range_mut"):
            xs = tuple(pair_ref(I, r, k) for k, _ in v.d if in_range(I, a[1], k))
            return It("list", xs, 0, len(xs))
        if not v.d:
            return NONE
        i = 0 if "first" in name else -1
        k, x = v.d[i]
        if name.endswith("key_value"):
            return some(pair_ref(I, r, k))
        if name.endswith("entry"):
            return some(NatV("Entry", (r, k)))
        I.store(r, NatV("Map", v.d[1:] if i == 0 else v.d[:-1]))
        return some(tup(k, x))
    if name == "split_off":
        r, v = M.nat_at(I, a[0], "Map")
        lo = tuple(e for e in v.d if cmp_value(I, e[0], a[1]) < 0)
        I.store(r, NatV("Map", lo))
        return NatV("Map", v.d[len(lo):])
    res = M.mapm(I, name, a, info)
    if res is not NotImplemented and name in ("insert", "extend", "append"):
        rearrange(I, a[0], "Map")
    return res


def set_of(I, v):
    v = I.deref(v)
    while isinstance(v, NatV) and v.kind in ("RefMut", "RefG", "Rc", "Box"):
        v = I.deref(M.nat_deref(I, v))
    if not (isinstance(v, NatV) and v.kind == "Set"):
        raise Unsupported("%s is not a set" % short(v))
    return v.d


def set_algebra(I, name, a, ordered):
    x, y = set_of(I, a[0]), set_of(I, a[1])
    d = {"union": lambda: x + tuple(k for k in y if k not in x), "intersection": lambda: tuple(k for k in x if k in y),
         "difference": lambda: tuple(k for k in x if k not in y),
         "symmetric_difference": lambda: tuple(k for k in x if k not in y) + tuple(k for k in y if k not in x)}[name]()
    return arrange(I, NatV("Set", d)).d if ordered else d


def setx(I, name, a, info, ordered=False):
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        d = tuple(I.mkref(k, "k") for k in set_algebra(I, name, a, ordered))
        return It("list", d, 0, len(d))
    if name in ("is_subset", "is_superset", "is_disjoint"):
        x, y = set_of(I, a[0]), set_of(I, a[1])
        return {"is_subset": all(k in y for k in x), "is_superset": all(k in x for k in y), "is_disjoint": not any(k in y for k in x)}[name]
    if name in ("get", "take", "replace", "retain", "drain", "first", "last", "pop_first", "pop_last", "range", "append", "reserve", "shrink_to_fit", "extract_if", "split_off", "get_or_insert"):
        r, v = M.nat_at(I, a[0], "Set")
        if name in ("get", "take"):
            k = hkey(I, a[1])
            if k not in v.d:
                return NONE
            if name == "take":
                I.store(r, NatV("Set", tuple(x for x in v.d if x != k)))
                return some(k)
            return some(I.mkref(k, "k"))
        if name == "replace":
            k = hkey(I, a[1])
            had = k in v.d
            if not had:
                I.store(r, NatV("Set", v.d + (k,)))
                if ordered:
                    rearrange(I, r, "Set")
            return some(k) if had else NONE
        if name == "retain":
            f = fref(I, a[1])
            I.store(r, NatV("Set", tuple(k for k in v.d if I.truth(I.call_callable(f, [I.mkref(k, "k")])))))
            return UNIT
        if name == "drain":
            I.store(r, NatV("Set", ()))
            return It("list", v.d, 0, len(v.d))
        if name in ("first", "last"):
            return some(I.mkref(v.d[0 if name == "first" else -1], "k")) if v.d else NONE
        if name in ("pop_first", "pop_last"):
            if not v.d:
                return NONE
            I.store(r, NatV("Set", v.d[1:] if name == "pop_first" else v.d[:-1]))
            return some(v.d[0 if name == "pop_first" else -1])
        if name == "range":
            xs = tuple(I.mkref(k, "k") for k in v.d if in_range(I, a[1], k))
            return It("list", xs, 0, len(xs))
        if name == "append":
            q, w = M.nat_at(I, a[1], "Set")
            I.store(q, NatV("Set", ()))
            I.store(r, NatV("Set", v.d + tuple(k for k in w.d if k not in v.d)))
            rearrange(I, r, "Set")
            return UNIT
        if name in ("reserve", "shrink_to_fit"):
            return UNIT
        if name == "extract_if":
            f = fref(I, a[-1])
            hit = tuple(k for k in v.d if I.truth(I.call_callable(f, [I.mkref(k, "k")])))
            I.store(r, NatV("Set", tuple(k for k in v.d if k not in hit)))
            return It("list", hit, 0, len(hit))
        if name == "split_off":
            lo = tuple(k for k in v.d if cmp_value(I, k, a[1]) < 0)
            I.store(r, NatV("Set", lo))
            return NatV("Set", v.d[len(lo):])
        return NotImplemented
    res = M.setm(I, name, a, info)
    if ordered and res is not NotImplemented and name in ("insert", "extend"):
        rearrange(I, a[0], "Set")
    return res


def mapx(I, name, a, info, ordered=False):
    """Additions common to both kinds of map."""
    if name == "append":
        r, v = M.nat_at(I, a[0], "Map")
        q, w = M.nat_at(I, a[1], "Map")
        I.store(q, NatV("Map", ()))
        m = v.d
        for k, x in w.d:
            m = M.map_put(I, m, k, x)
        I.store(r, NatV("Map", m))
        if ordered:
            rearrange(I, r, "Map")
        return UNIT
    if name == "entry":
        e = M.mapm(I, name, a, info)
        r, k = e.d
        e = NatV("Entry", (r, k, ordered))
        t = info.dest_ty
        if t is not None and len(t.variants) == 2:
            has = any(kk == k for kk, _ in M.nat_at(I, r, "Map")[1].d)
            for i, (n, _, _) in enumerate(t.variants):
                if n == ("Occupied" if has else "Vacant"):
                    return Agg(t, i, (e,))
        return e
    if name in ("try_insert",):
        return NotImplemented
    if name == "extract_if":
        r, v = M.nat_at(I, a[0], "Map")
        f = fref(I, a[-1])
        hit = [k for k, _ in v.d if I.truth(I.call_callable(f, [I.mkref(k, "k"), Ref(r.obj, r.path + (("k", k),))]))]
        v = I.load(r)
        I.store(r, NatV("Map", tuple(e for e in v.d if e[0] not in hit)))
        xs = tuple(tup(k, x) for k, x in v.d if k in hit)
        return It("list", xs, 0, len(xs))
    if name in ("reserve", "shrink_to_fit", "shrink_to", "hasher", "capacity"):
        return UNIT if name not in ("capacity", "hasher") else NotImplemented
    return btm(I, name, a, info) if ordered else M.mapm(I, name, a, info)


def entryx(I, name, a, info):
    """Entry, OccupiedEntry, VacantEntry."""
    e = a[0]
    outer = e
    by_ref = isinstance(e, Ref)
    e = I.deref(e) if by_ref else e
    if isinstance(e, Agg) and len(e.f) == 1 and isinstance(e.f[0], NatV) and e.f[0].kind == "Entry":
        e = e.f[0]
    if not (isinstance(e, NatV) and e.kind == "Entry"):
        return NotImplemented
    r, k = e.d[0], e.d[1]
    ordered = len(e.d) > 2 and e.d[2]
    r, v = M.nat_at(I, r, "Map")
    ref = Ref(r.obj, r.path + (("k", k),))
    has = any(kk == k for kk, _ in v.d)

    def put(x):
        I.store(r, NatV("Map", M.map_put(I, M.nat_at(I, r, "Map")[1].d, k, x)))
        if ordered:
            rearrange(I, r, "Map")
    if name == "key":
        return I.mkref(k, "k")
    if name == "into_key":
        return k
    if name in ("get", "get_mut", "into_mut"):
        return ref
    if name in ("remove", "remove_entry"):
        x = I.load(ref)
        I.store(r, NatV("Map", tuple(p for p in v.d if p[0] != k)))
        return x if name == "remove" else tup(k, x)
    if name in ("insert", "insert_entry"):
        vacant = "VacantEntry" in info.path
        if vacant:
            put(a[1])
            return ref if name == "insert" else e
        if "OccupiedEntry" in info.path:
            x = I.load(ref)
            I.store(ref, a[1])
            return x
        put(a[1])
        return e
    if name in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
        if not has:
            if name == "or_insert":
                x = a[1]
            elif name == "or_insert_with":
                x = I.call_callable(a[1], [])
            elif name == "or_insert_with_key":
                x = I.call_callable(a[1], [I.mkref(k, "k")])
            else:
                t = info.dest_ty
                x = M.default_of(I, t.elem if t is not None and t.elem is not None else None)
            put(x)
        return ref
    if name == "and_modify":
        if has:
            I.call_callable(a[1], [ref])
        return outer
    return NotImplemented


def heapm(I, name, a, info):
    """A binary heap is held as a vector; the order of its storage is not observable through these methods."""
    if name in ("new", "with_capacity", "default"):
        return VecV(())
    if name in ("push", "len", "is_empty", "clear", "reserve", "append"):
        return VECM[name](I, a, info)
    if name in ("into_vec", "into_sorted_vec", "drain", "iter", "into_iter"):
        if name != "into_sorted_vec":
            raise Unsupported("storage order of a heap")
        return VecV(sorted(I.slice_items(a[0]), key=functools.cmp_to_key(lambda x, y: cmp_value(I, x, y))))
    if name in ("pop", "peek"):
        r, v = M.as_vec(I, a[0])
        best = None
        for i, x in enumerate(v.items):
            if best is None or cmp_value(I, x, v.items[best]) > 0:
                best = i
        if best is None:
            return NONE
        if name == "peek":
            return some(Ref(r.obj, r.path + (best,)))
        I.store(r, VecV(v.items[:best] + v.items[best + 1:]))
        return some(v.items[best])
    return NotImplemented


# ---------------------------------------------------------------- iterators
def _by(sign):
    def run(I, it, a, info):
        f = fref(I, a[0])
        best = None
        for x in it_all(I, it):
            if best is None:
                best = x
                continue
            c = order_of(I.call_callable(f, [I.mkref(best), I.mkref(x)]))
            if (sign > 0 and c <= 0) or (sign < 0 and c > 0):
                best = x
        return opt(best)
    return run


ITER["max_by"], ITER["min_by"] = _by(1), _by(-1)


def _key(sign):
    def run(I, it, a, info):
        f = fref(I, a[0])
        best = bk = None
        for x in it_all(I, it):
            k = I.call_callable(f, [I.mkref(x)])
            c = None if best is None else cmp_value(I, bk, k)
            if best is None or (sign > 0 and c <= 0) or (sign < 0 and c > 0):
                best, bk = x, k
        return opt(best)
    return run


ITER["max_by_key"], ITER["min_by_key"] = _key(1), _key(-1)


def lex(I, it, other):
    x, y = it_all(I, it), it_all(I, to_it(I, other))
    return cmp_value(I, VecV(x), VecV(y))


ITER["cmp"] = lambda I, it, a, info: ordering(I, lex(I, it, a[0]))
ITER["partial_cmp"] = lambda I, it, a, info: some(ordering(I, lex(I, it, a[0])))
ITER["lt"] = lambda I, it, a, info: lex(I, it, a[0]) < 0
ITER["le"] = lambda I, it, a, info: lex(I, it, a[0]) <= 0
ITER["gt"] = lambda I, it, a, info: lex(I, it, a[0]) > 0
ITER["ge"] = lambda I, it, a, info: lex(I, it, a[0]) >= 0
_eq = ITER["eq"]
ITER["ne"] = lambda I, it, a, info: I.bnot(_eq(I, it, a, info))


@M.meth(ITER, "is_sorted")
def _(I, it, a, info):
    xs = it_all(I, it)
    return all(cmp_value(I, x, y) <= 0 for x, y in zip(xs, xs[1:]))


@M.meth(ITER, "is_sorted_by_key")
def _(I, it, a, info):
    f = fref(I, a[0])
    xs = [I.call_callable(f, [x]) for x in it_all(I, it)]
    return all(cmp_value(I, x, y) <= 0 for x, y in zip(xs, xs[1:]))


@M.meth(ITER, "cycle")
def _(I, it, a, info):
    d = it.d
    if d[0] in ("user", "by_ref", "boxed"):
        raise Unsupported("cycle over %s" % d[0])
    xs = tuple(it_all(I, it))
    return It("cycle", xs, 0)


@M.meth(ITER, "rposition")
def _(I, it, a, info):
    f = fref(I, a[0])
    n = M.it_count(I, it)
    while True:
        x, it = it_step(I, it, True)
        if x is END:
            return NONE
        n -= 1
        if I.truth(I.call_callable(f, [x])):
            return some(n)


@M.meth(ITER, "rfind")
def _(I, it, a, info):
    return ITER["find"](I, It("rev", it), a, info)


@M.meth(ITER, "try_rfold")
def _(I, it, a, info):
    return ITER["try_fold"](I, It("rev", it), a, info)


@M.meth(ITER, "partition")
def _(I, it, a, info):
    f = fref(I, a[0])
    yes, no = [], []
    for x in it_all(I, it):
        (yes if I.truth(I.call_callable(f, [I.mkref(x)])) else no).append(x)
    t = info.dest_ty
    ts = part_types(t)
    return tup(collect(I, yes, ts[0]), collect(I, no, ts[1]))


def part_types(t):
    for xs in ((t.args, t.fields) if t is not None else ()):
        if len(xs) == 2:
            return xs
    if t is not None and t.variants and len(t.variants[0][2]) == 2:
        return [x[1] for x in t.variants[0][2]]
    return (None, None)


@M.meth(ITER, "unzip")
def _(I, it, a, info):
    xs = it_all(I, it)
    ts = part_types(info.dest_ty)
    return tup(collect(I, [x.f[0] for x in xs], ts[0]), collect(I, [x.f[1] for x in xs], ts[1]))


def fallible(I, xs, t, fold):
    """Sum or product over options or results."""
    good = 1 if t.path.endswith("Option") else 0
    out = []
    for x in xs:
        if x.var != good:
            return x
        out.append(x.f[0])
    inner = t.args[0] if t.args else None
    r = fold(I, out, inner)
    return some(r) if good else ok(r)


def fold_with(op, unit):
    def go(I, xs, t):
        acc = None
        for x in xs:
            x = I.deref(x)
            acc = x if acc is None else M.arith(I, op, acc, x)
        if acc is None:
            acc = lift(unit, True) if t is not None and t.k == "float" else M.cplx(lift(unit, True), dom.ZERO) if t is not None and t.path == "num_complex::Complex" else unit
        return acc

    def run(I, it, a, info):
        t = info.dest_ty
        xs = it_all(I, it)
        if t is not None and t.path in ("core::option::Option", "core::result::Result"):
            return fallible(I, xs, t, go)
        return go(I, xs, t)
    return run


ITER["sum"], ITER["product"] = fold_with("add", 0), fold_with("mul", 1)


@M.meth(ITER, "size_hint")
def _(I, it, a, info):
    try:
        n = M.it_count(I, it)
    except Unsupported:
        return tup(0, NONE)
    return tup(n, some(n))


@M.meth(ITER, "fold_while")
def _(I, it, a, info):
    return NotImplemented


@M.meth(ITER, "collect_into")
def _(I, it, a, info):
    xs = it_all(I, it)
    r = a[0]
    q, v = M.as_vec(I, r)
    I.store(q, VecV(v.items + tuple(xs)))
    return r


@M.meth(ITER, "is_partitioned")
def _(I, it, a, info):
    f = fref(I, a[0])
    xs = [I.truth(I.call_callable(f, [x])) for x in it_all(I, it)]
    return xs == sorted(xs, reverse=True)


def peek_at(I, r):
    v = I.load(r)
    while isinstance(v, Ref) and v.rng is None:
        r, v = v, I.load(v)
    if not (isinstance(v, NatV) and v.kind == "It" and v.d[0] == "peekable"):
        return None
    if v.d[2] is None:
        x, n = it_step(I, v.d[1])
        v = It("peekable", n, () if x is END else (x,))
        I.store(r, v)
    return r, v


def peek_method(I, name, a, info):
    """next_if, next_if_eq, peek_mut on a peekable iterator."""
    pv = peek_at(I, a[0])
    if pv is None:
        return NotImplemented
    r, v = pv
    if v.d[2] == ():
        return NONE
    x = v.d[2][0]
    if name == "peek_mut":
        raise Unsupported("mutable look-ahead")
    if name == "next_if_map":
        return NotImplemented
    c = I.mkref(x)
    hit = I.truth(I.call_callable(fref(I, a[1]), [c])) if name == "next_if" else I.truth(eq_value(I, x, a[1]))
    if not hit:
        return NONE
    I.store(r, It("peekable", v.d[1], None))
    return some(x)


# ---------------------------------------------------------------- intrinsics
@T("core::intrinsics::select_unpredictable", "core::hint::select_unpredictable", "core::bool::<impl bool>::select_unpredictable")
def _(I, a, info):
    return a[1] if I.truth(a[0]) else a[2]


def limits(t):
    b = INT_BITS.get(t.s) if t is not None else None
    if b is None:
        return None
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.s[0] == "i" else (0, (1 << b) - 1)


@T("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def _(I, a, info):
    t = info.targs[0] if info.targs else None
    l = limits(t)
    if l is None:
        return NotImplemented
    return M.intm(I, info.path.rsplit("::", 1)[-1], a, info, "core::num::<impl %s>::x" % t.s)


@T("core::intrinsics::ctlz", "core::intrinsics::cttz", "core::intrinsics::ctpop", "core::intrinsics::ctlz_nonzero", "core::intrinsics::cttz_nonzero")
def _(I, a, info):
    t = info.targs[0] if info.targs else None
    v = I.deref(a[0])
    if t is None or limits(t) is None or not isinstance(v, int):
        return NotImplemented
    op = {"ctlz": "leading_zeros", "cttz": "trailing_zeros", "ctpop": "count_ones"}[info.path.rsplit("::", 1)[-1].split("_")[0]]
    return M.intm(I, op, a, info, "core::num::<impl %s>::x" % t.s)


@T("core::intrinsics::is_val_statically_known")
def _(I, a, info):
    return False


@T("core::intrinsics::integer_max", "core::intrinsics::integer_min")
def _(I, a, info):
    return NotImplemented


@T("core::intrinsics::assert_inhabited", "core::intrinsics::assert_zero_valid", "core::intrinsics::assert_mem_uninitialized_valid")
def _(I, a, info):
    return UNIT


@T("core::array::from_fn")
def _(I, a, info):
    t = info.dest_ty
    if t is None or t.n is None:
        return NotImplemented
    f = fref(I, a[0])
    return VecV([I.call_callable(f, [i]) for i in range(t.n)])


@T("core::cell::Cell::<T>::into_inner")
def _(I, a, info):
    return a[0].d


@T("core::cell::Cell::<T>::update")
def _(I, a, info):
    v = I.load(a[0]).d
    I.store(a[0], NatV("Cell", I.call_callable(a[1], [v])))
    return UNIT


@T("core::cell::Cell::<T>::swap")
def _(I, a, info):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNIT


# ---------------------------------------------------------------- text
def lit(I, v, what="text"):
    """The characters of a fully known text."""
    t = M.cmodels.to_text(I, v).lit()
    if t is None:
        raise Unsupported("%s of symbolic text" % what)
    return t


def enc(s):
    return s.encode("utf-8", "surrogateescape")


def S(s):
    return StrV((s,))


def strs(xs):
    xs = tuple(S(x) for x in xs)
    return It("list", xs, 0, len(xs))


def pattern(I, p):
    """A text pattern as a function (text, start) -> length of the match there, or None."""
    v = I.deref(p)
    if isinstance(v, bool):
        raise Unsupported("pattern %s" % short(p))
    if isinstance(v, int):
        c = chr(v)
        return lambda s, i: 1 if s[i:i + 1] == c else None
    if isinstance(v, StrV):
        w = lit(I, v, "pattern")
        return lambda s, i: len(w) if s.startswith(w, i) else None
    if isinstance(v, VecV):
        cs = [chr(I.deref(x)) for x in v.items]
        return lambda s, i: 1 if i < len(s) and s[i] in cs else None
    f = fref(I, p)
    return lambda s, i: 1 if i < len(s) and I.truth(I.call_callable(f, [ord(s[i])])) else None


def matches(I, s, p):
    """Non-overlapping matches [(start, end)] from the left."""
    m = pattern(I, p)
    out, i = [], 0
    while i <= len(s):
        n = m(s, i)
        if n is None:
            i += 1
            continue
        out.append((i, i + n))
        i += n if n else 1
    return out


def rmatches(I, s, p):
    m = pattern(I, p)
    out, i = [], len(s)
    hi = len(s)
    while i >= 0:
        n = m(s, i)
        if n is not None and i + n <= hi and (n > 0 or i <= hi):
            out.append((i, i + n))
            hi = i if n else i - 1
            i -= 1 if n == 0 else 0
            if n:
                i -= 1
        else:
            i -= 1
    return out


def cut(s, ms):
    out, k = [], 0
    for a, b in ms:
        out.append(s[k:a])
        k = b
    out.append(s[k:])
    return out


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def lines(s):
    out = s.split("\n")
    if out and out[-1] == "":
        out.pop()
    return [x[:-1] if x.endswith("\r") else x for x in out]


def split_n(s, ms, n):
    return cut(s, ms[:n - 1]) if n > 0 else []


def split_inclusive(s, ms):
    out, k = [], 0
    for a, b in ms:
        out.append(s[k:b])
        k = b
    if k < len(s):
        out.append(s[k:])
    return out


STR = {
    "trim": lambda I, s, a: S(s.strip(WS)), "trim_start": lambda I, s, a: S(s.lstrip(WS)), "trim_end": lambda I, s, a: S(s.rstrip(WS)),
    "trim_left": lambda I, s, a: S(s.lstrip(WS)), "trim_right": lambda I, s, a: S(s.rstrip(WS)),
    "to_uppercase": lambda I, s, a: S(s.upper()), "to_lowercase": lambda I, s, a: S(s.lower()),
    "to_ascii_uppercase": lambda I, s, a: S("".join(c.upper() if c < "\x80" else c for c in s)),
    "to_ascii_lowercase": lambda I, s, a: S("".join(c.lower() if c < "\x80" else c for c in s)),
    "lines": lambda I, s, a: strs(lines(s)), "split_whitespace": lambda I, s, a: strs([x for x in cut(s, [(i, i + 1) for i, c in enumerate(s) if c in WS]) if x]),
    "split_ascii_whitespace": lambda I, s, a: strs([x for x in cut(s, [(i, i + 1) for i, c in enumerate(s) if c in "\t\n\x0c\r "]) if x]),
    "split": lambda I, s, a: strs(cut(s, matches(I, s, a[1]))), "rsplit": lambda I, s, a: strs(cut(s, rmatches(I, s, a[1])[::-1])[::-1]),
    "splitn": lambda I, s, a: strs(split_n(s, matches(I, s, a[2]), I.concrete(a[1]))),
    "split_inclusive": lambda I, s, a: strs(split_inclusive(s, matches(I, s, a[1]))),
    "split_terminator": lambda I, s, a: strs((lambda x: x[:-1] if x and x[-1] == "" else x)(cut(s, matches(I, s, a[1])))),
    "rsplitn": lambda I, s, a: strs(cut(s, rmatches(I, s, a[2])[:max(0, I.concrete(a[1]) - 1)][::-1])[::-1]),
    "contains": lambda I, s, a: bool(matches(I, s, a[1])), "starts_with": lambda I, s, a: pattern(I, a[1])(s, 0) is not None,
    "is_ascii": lambda I, s, a: s.isascii(), "replace": lambda I, s, a: S(lit(I, a[2]).join(cut(s, matches(I, s, a[1])))),
    "replacen": lambda I, s, a: S(lit(I, a[2]).join(cut(s, matches(I, s, a[1])[:I.concrete(a[3])]))),
    "is_char_boundary": lambda I, s, a: boundary(s, I.concrete(a[1])), "repeat": lambda I, s, a: S(s * I.concrete(a[1])),
    "eq_ignore_ascii_case": lambda I, s, a: asc(s) == asc(lit(I, a[1])),
    "matches": lambda I, s, a: strs([s[x:y] for x, y in matches(I, s, a[1])]),
    "char_count": lambda I, s, a: len(s),
}


def asc(s):
    return "".join(c.lower() if c < "\x80" else c for c in s)


def boundary(s, i):
    b = enc(s)
    return i == len(b) or (i < len(b) and (b[i] & 0xC0) != 0x80)


def bpos(s, i):
    return len(enc(s[:i]))


def cpos(s, i):
    """Character index of byte offset i, or None."""
    b = enc(s)
    if i > len(b) or not boundary(s, i):
        return None
    return len(b[:i].decode("utf-8", "surrogateescape"))


def ends(I, s, p):
    v = I.deref(p)
    if isinstance(v, StrV):
        w = lit(I, v)
        return len(w) if s.endswith(w) else None
    return 1 if s and pattern(I, p)(s, len(s) - 1) else None


def parse_int(t, s, base=10):
    return parse_int_text(t.s, s, base)


def parse_int_text(ty, s, base=10):
    b = INT_BITS[ty]
    l = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty[0] == "i" else (0, (1 << b) - 1)
    x = s[1:] if s[:1] in "+-" and len(s) > 1 and (s[0] == "+" or ty[0] == "i") else s
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    if not x or any(c not in digits for c in x.lower()):
        return err(Opaque(("ParseInt",)))
    v = int(x, base) * (-1 if s[0] == "-" else 1)
    return ok(v) if l[0] <= v <= l[1] else err(Opaque(("ParseInt",)))


def parse(I, s, t):
    if t is None:
        raise Unsupported("parse into an unknown type")
    if t.s in INT_BITS:
        return parse_int(t, s)
    if t.s == "bool":
        return ok(s == "true") if s in ("true", "false") else err(Opaque(("ParseBool",)))
    if t.path in ("num_bigint::bigint::BigInt", "num_bigint::biguint::BigUint"):
        try:
            v = int(s.replace("_", "")) if s[:1] not in ("_", " ") and not s.startswith(("-_", "+_")) and s.strip() == s else None
        except ValueError:
            v = None
        return ok(v) if v is not None and (v >= 0 or t.path.endswith("BigInt")) else err(Opaque(("ParseBigInt",)))
    if t.path == "alloc::string::String":
        return ok(S(s))
    if t.s == "char":
        return ok(ord(s)) if len(s) == 1 else err(Opaque(("ParseChar",)))
    f = I.P.by_path.get("<%s as core::str::traits::FromStr>::from_str" % t.s)
    if f:
        return I.call_fn(f[0], [S(s)])
    raise Unsupported("parse into %s" % t.s)


STR2 = {"find", "rfind", "split_once", "rsplit_once", "split_at", "strip_prefix", "strip_suffix", "ends_with", "trim_matches", "trim_start_matches", "trim_end_matches", "parse", "get", "split_at_checked", "match_indices"}


def strm(I, name, a, info):
    if name in STR:
        return STR[name](I, lit(I, a[0], name), a)
    if name not in STR2:
        return NotImplemented
    s = lit(I, a[0], name)
    if name in ("find", "rfind"):
        ms = matches(I, s, a[1]) if name == "find" else rmatches(I, s, a[1])
        return some(bpos(s, ms[0][0])) if ms else NONE
    if name in ("split_once", "rsplit_once"):
        ms = matches(I, s, a[1]) if name == "split_once" else rmatches(I, s, a[1])
        return some(tup(S(s[:ms[0][0]]), S(s[ms[0][1]:]))) if ms else NONE
    if name in ("split_at", "split_at_checked"):
        k = cpos(s, I.concrete(a[1]))
        if k is None:
            if name == "split_at":
                raise Panic("split position is not a character boundary")
            return NONE
        p = tup(S(s[:k]), S(s[k:]))
        return p if name == "split_at" else some(p)
    if name == "strip_prefix":
        n = pattern(I, a[1])(s, 0)
        return NONE if n is None else some(S(s[n:]))
    if name == "strip_suffix":
        n = ends(I, s, a[1])
        return NONE if n is None else some(S(s[:len(s) - n]))
    if name == "ends_with":
        return ends(I, s, a[1]) is not None
    if name.startswith("trim_"):
        if name != "trim_end_matches":
            m = pattern(I, a[1])
            while s:
                n = m(s, 0)
                if not n:
                    break
                s = s[n:]
        if name != "trim_start_matches":
            while s:
                n = ends(I, s, a[1])
                if not n:
                    break
                s = s[:len(s) - n]
        return S(s)
    if name == "parse":
        t = info.targs[-1] if info.targs else None
        if t is None or t.s in ("str",):
            t = info.dest_ty.args[0] if info.dest_ty is not None and info.dest_ty.args else None
        return parse(I, s, t)
    if name == "get":
        b = enc(s)
        lo, hi = M.range_bounds(I, a[1], len(b))
        if lo > hi or hi > len(b) or not boundary(s, lo) or not boundary(s, hi):
            return NONE
        return some(S(b[lo:hi].decode("utf-8", "surrogateescape")))
    if name == "match_indices":
        xs = tuple(tup(bpos(s, x), S(s[x:y])) for x, y in matches(I, s, a[1]))
        return It("list", xs, 0, len(xs))
    return NotImplemented


def text_ref(I, r):
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    return r


def stringm(I, name, a, info):
    """Methods of String that change it."""
    if name in ("insert", "insert_str", "remove", "truncate", "pop", "retain", "drain", "replace_range", "split_off"):
        r = text_ref(I, a[0])
        t = I.load(r)
        if not isinstance(t, StrV):
            return NotImplemented
        if name == "pop" and t.lit() is None and isinstance(t.parts[-1], str):
            p = t.parts[-1]
            I.store(r, StrV(t.parts[:-1] + (p[:-1],)))
            return some(ord(p[-1]))
        if name == "truncate" and t.lit() is None and I.concrete(a[1], "length") == 0:
            I.store(r, StrV())
            return UNIT
        if name in ("insert", "insert_str") and t.lit() is None and I.concrete(a[1], "position") == 0:
            I.store(r, (M.char_text(I, a[2]) if name == "insert" else M.cmodels.to_text(I, a[2])) + t)
            return UNIT
        s = lit(I, t, name)
        if name == "pop":
            if not s:
                return NONE
            I.store(r, S(s[:-1]))
            return some(ord(s[-1]))
        if name == "retain":
            f = fref(I, a[1])
            I.store(r, S("".join(c for c in s if I.truth(I.call_callable(f, [ord(c)])))))
            return UNIT
        if name in ("drain", "replace_range"):
            n = len(enc(s))
            lo, hi = M.range_bounds(I, a[1], n)
            x, y = (cpos(s, lo), cpos(s, hi)) if lo <= hi <= n else (None, None)
            if x is None or y is None:
                raise Panic("range is not on character boundaries")
            I.store(r, S(s[:x] + (lit(I, a[2]) if name == "replace_range" else "") + s[y:]))
            if name == "replace_range":
                return UNIT
            cs = tuple(ord(c) for c in s[x:y])
            return It("list", cs, 0, len(cs))
        i = I.concrete(a[1], "position")
        if name == "truncate" and i > len(enc(s)):
            return UNIT
        k = cpos(s, i)
        if k is None or (name == "remove" and k >= len(s)):
            raise Panic("position is not a character boundary")
        if name == "truncate":
            I.store(r, S(s[:k]))
            return UNIT
        if name == "split_off":
            I.store(r, S(s[:k]))
            return S(s[k:])
        if name == "remove":
            I.store(r, S(s[:k] + s[k + 1:]))
            return ord(s[k])
        I.store(r, S(s[:k] + (M.char_text(I, a[2]).lit() if name == "insert" else lit(I, a[2])) + s[k:]))
        return UNIT
    if name == "clear":
        I.store(text_ref(I, a[0]), StrV())
        return UNIT
    if name in ("reserve", "shrink_to_fit", "reserve_exact"):
        return UNIT
    if name == "capacity":
        return I.slice_len(a[0])
    if name == "from_utf8_lossy":
        t = M.cmodels.to_text(I, a[0])
        l = t.lit()
        if l is None:
            return NotImplemented
        return S(enc(l).decode("utf-8", "replace"))
    if name in ("into_string", "from_utf8_unchecked", "into_boxed_str", "as_mut_str"):
        return M.cmodels.to_text(I, a[0])
    return NotImplemented


def esc_debug(s, quote='"'):
    out = []
    for c in s:
        e = {"\t": "\\t", "\r": "\\r", "\n": "\\n", "\0": "\\0", "\\": "\\\\", quote: "\\" + quote}.get(c)
        out.append(e if e is not None else c if c.isprintable() else "\\u{%x}" % ord(c))
    return "".join(out)


@T("core::str::<impl str>::escape_debug")
def _(I, a, info):
    t = lit(I, a[0], "escape_debug")
    return NatV("Text", S(esc_debug(t).replace("'", "\\'")))


# ---------------------------------------------------------------- formatting
def cat(*xs):
    s = StrV()
    for x in xs:
        s = s + (x if isinstance(x, StrV) else S(x))
    return s


def joined(xs):
    s = StrV()
    for i, x in enumerate(xs):
        s = cat(s, ", ", x) if i else cat(s, x)
    return s


def target(t):
    while t is not None and t.k in ("ref", "ptr") and (t.args or t.elem is not None):
        t = t.args[0] if t.args else t.elem
    return t


def user_fmt(I, v, trait, ref=None):
    """The text a user-written (or derived) formatting implementation writes, or None."""
    if not (isinstance(v, Agg) and v.ty is not None and v.ty.path):
        return None
    for tr in ("core::fmt::" + trait,):
        f = M.find_impl(I, v, tr, "fmt")
        if f is None:
            return None
        b = I.mkref(StrV(), "fmt")
        r = I.call_fn(f, [ref if ref is not None else I.mkref(v), I.mkref(NatV("Fmtr", b))])
        if isinstance(r, Agg) and r.var != 0:
            raise Panic("a formatting trait implementation returned an error")
        return I.load(b)
    return None


def debug_text(I, x, ty=None):
    ty = target(ty)
    v = I.deref(x)
    if isinstance(v, StrV):
        t = v.lit()
        return cat('"', v, '"') if t is None else S('"' + esc_debug(t) + '"')
    if isinstance(v, int) and not isinstance(v, bool) and ty is not None and ty.s == "char":
        return S("'" + esc_debug(chr(v), "'") + "'")
    if isinstance(v, VecV):
        et = ty.elem if ty is not None and ty.elem is not None else ty.args[0] if ty is not None and ty.args else None
        return cat("[", joined([debug_text(I, e, et) for e in v.items]), "]")
    if isinstance(v, NatV):
        if v.kind in ("Box", "Rc", "RefMut", "RefG"):
            return debug_text(I, M.nat_deref(I, v), ty.args[0] if ty is not None and ty.args else None)
        if v.kind == "Map":
            kt, vt = (ty.args + [None, None])[:2] if ty is not None else (None, None)
            return cat("{", joined([cat(debug_text(I, k, kt), ": ", debug_text(I, e, vt)) for k, e in v.d]), "}")
        if v.kind == "Set":
            return cat("{", joined([debug_text(I, k, ty.args[0] if ty is not None and ty.args else None) for k in v.d]), "}")
    if isinstance(v, Agg):
        t = user_fmt(I, v, "Debug")
        if t is not None:
            return t
        p = v.ty.path if v.ty is not None else None
        if p in ("core::option::Option", "core::result::Result", "core::cmp::Ordering"):
            if not v.f:
                return S(v.name)
            at = ty.args[v.var if p.endswith("Result") else 0] if ty is not None and ty.args else None
            return cat(v.name, "(", debug_text(I, v.f[0], at), ")")
        if p is None and (v.ty is None or v.ty.k == "tuple"):
            ts = part_list(ty, len(v.f))
            xs = [debug_text(I, e, t) for e, t in zip(v.f, ts)]
            return cat("(", joined(xs), ",)" if len(xs) == 1 else ")")
        if p in (M.RANGE, M.RANGEI):
            return cat(debug_text(I, v.f[0]), ".." if p == M.RANGE else "..=", debug_text(I, v.f[1]))
    return _fmt_display(I, x, "?")


def part_list(ty, n):
    if ty is not None:
        for xs in (ty.args, ty.fields):
            if len(xs) == n:
                return xs
    return [None] * n


_fmt_display = M.fmt_display


def fmt_display(I, v, mode="d"):
    x = I.deref(v)
    if isinstance(x, NatV) and x.kind == "Text":
        return x.d
    if isinstance(x, NatV) and x.kind in ("Rc", "RefMut", "RefG"):
        return fmt_display(I, M.nat_deref(I, x), mode)
    if isinstance(x, (Agg, VecV)) and mode == "?":
        return debug_text(I, v)
    if isinstance(x, Agg) and mode == "d":
        t = user_fmt(I, x, "Display")
        if t is not None:
            return t
        if x.ty is not None and x.ty.path == "alloc::borrow::Cow":
            return fmt_display(I, x.f[0], mode)
    return _fmt_display(I, v, mode)


M.fmt_display = fmt_display


@T("core::fmt::rt::Argument::<'_>::new_debug")
def _(I, a, info):
    return NatV("Arg", (debug_text(I, a[0], info.targs[-1] if info.targs else None), I.deref(a[0]), "?"))


def fmtr(I, r):
    v = I.load(r)
    while isinstance(v, Ref):
        r, v = v, I.load(v)
    if isinstance(v, NatV) and v.kind == "Fmtr":
        return v.d
    return None


def put(I, b, s):
    I.store(b, I.load(b) + s)
    return ok(UNIT)


def formatterm(I, p, trait, name, a, info):
    """core::fmt::Formatter and the formatting traits called on it."""
    if trait in ("core::fmt::Display", "core::fmt::Debug") and name == "fmt":
        b = fmtr(I, a[1]) if isinstance(a[1], Ref) else None
        if b is None:
            return NotImplemented
        v = I.deref(a[0])
        if isinstance(v, Agg) and M.find_impl(I, v, trait, "fmt") is not None:
            return NotImplemented
        t = info.targs[0] if info.targs else None
        if trait.endswith("Display"):
            return put(I, b, M.char_text(I, a[0]) if M.is_char(t) else M.fmt_display(I, a[0]))
        return put(I, b, debug_text(I, a[0], t))
    if not (a and isinstance(a[0], Ref)):
        return NotImplemented
    b = fmtr(I, a[0])
    if b is None:
        return NotImplemented
    if name == "write_str" or name == "pad":
        return put(I, b, M.cmodels.to_text(I, a[1]))
    if name == "write_char":
        return put(I, b, M.char_text(I, a[1]))
    if name == "write_fmt":
        return put(I, b, a[1].d)
    if name == "alternate":
        return False
    if name in ("width", "precision"):
        return NONE
    if name.startswith("debug_") and name.endswith("_finish"):
        if name.startswith("debug_tuple_field"):
            return put(I, b, cat(lit(I, a[1]), "(", joined([debug_text(I, x) for x in a[2:]]), ")"))
        if name.startswith("debug_struct_field"):
            xs = [cat(lit(I, a[i]), ": ", debug_text(I, a[i + 1])) for i in range(2, len(a), 2)]
            return put(I, b, cat(lit(I, a[1]), " { ", joined(xs), " }"))
    return NotImplemented


_radix = M.radix


def radix(n, v):
    if n in ("lower_exp", "upper_exp") and type(v) is float:
        t = fp.shortest(abs(v))
        if "n" in t or "N" in t:
            return StrV(((n, v),))
        d, _, frac = t.partition(".")
        digits = (d + frac).lstrip("0")
        if not digits:
            return S("0e0")
        e = len(d) - 1 if d != "0" else -(len(frac) - len(frac.lstrip("0"))) - 1
        m = digits.rstrip("0") or "0"
        r = m[0] + ("." + m[1:] if len(m) > 1 else "") + "e" + str(e)
        return S(("-" if v < 0 else "") + (r.upper() if n == "upper_exp" else r))
    return _radix(n, v)


M.radix = radix
_padded = M.padded


def padded(part, x, raw, mode):
    flags = part.get("flags", 0xE0000020)
    if flags & 1 << 23 and mode in ("lower_hex", "upper_hex", "octal", "binary") and isinstance(raw, int) and x.lit() is not None:
        pre = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}[mode]
        t = x.lit()
        w = part.get("width") or 0
        if flags & 1 << 24:
            return S(pre + "0" * max(0, w - len(t) - 2) + t)
        return _padded(dict(part, flags=flags & ~(1 << 23)), S(pre + t), raw, mode)
    if isinstance(raw, StrV) and mode == "?" and x.lit() is not None and not flags & 1 << 23:
        return _padded(part, x, x, "d")
    if part.get("flags", 0xE0000020) == 0xE0000020 and not part.get("width") and part.get("prec") is None:
        return x
    return _padded(part, x, raw, mode)


M.padded = padded


# ---------------------------------------------------------------- trait objects
def virtual(I, path, trait, args):
    """The implementation a call through a trait object reaches, by the concrete type of its receiver."""
    if trait is None or not args:
        return None
    r = args[0]
    v = r
    last = None
    while True:
        if isinstance(v, Ref):
            if v.rng is not None:
                return None
            last = v
            v = I.load(v)
        elif isinstance(v, NatV) and v.kind in ("Box", "Rc", "RefMut", "RefG"):
            v = M.nat_deref(I, v)
        else:
            break
    if not (isinstance(v, Agg) and v.ty is not None and v.ty.s):
        return None
    name = path.rsplit("::", 1)[-1]
    f = M.find_impl(I, v, trait, name)
    if f is None:
        for d, ms in I.P.vtabs.get(v.ty.s, []):
            if trait in d and name in ms:
                f = ms[name]
    if f is None:
        fs = I.P.by_path.get("%s::%s" % (trait, name))
        f = fs[0] if fs and len(fs) == 1 else None
    if f is None:
        return None
    if isinstance(r, NatV):
        return f, [last] + list(args[1:])
    return f, [last if last is not None else r] + list(args[1:])


# ---------------------------------------------------------------- dispatch
MAPT = ("std::collections::hash::map::HashMap::<", "alloc::collections::btree::map::BTreeMap::<")
SETT = ("std::collections::hash::set::HashSet::<", "alloc::collections::btree::set::BTreeSet::<")


def whole_text(I, v):
    """The literal text behind a path, an OS string or any reference to one."""
    v = I.deref(v)
    if isinstance(v, NatV) and v.kind == "Box":
        v = I.get_obj(v.d)
    if not isinstance(v, StrV) or v.lit() is None:
        raise Unsupported("path %s" % short(v))
    return v.lit()


def opt_text(x):
    return M.NONE if x is None else M.opt(StrV((x,)))


def file_name(t):
    parts = [x for i, x in enumerate(t.split("/")) if x != "" and (x != "." or i == 0)]
    return None if not parts or parts[-1] in ("..", ".") else parts[-1]


def pathm(I, name, a, info):
    if name in ("new", "as_ref", "as_path", "as_os_str", "to_path_buf", "to_owned", "into_os_string", "as_mut_os_str", "into_boxed_path", "into_path_buf", "to_os_string", "from"):
        v = I.deref(a[0]) if a else StrV()
        if isinstance(v, NatV) and v.kind == "Box":
            v = I.get_obj(v.d)
        return v if isinstance(v, StrV) else NotImplemented
    if name == "to_str":
        return M.opt(StrV((whole_text(I, a[0]),)))
    if name in ("to_string_lossy", "into_string", "as_encoded_bytes", "display"):
        w = whole_text(I, a[0])
        v = StrV((enc(w).decode("utf-8", "replace") if name in ("to_string_lossy", "display") else w,))
        return M.ok(v) if name == "into_string" else v
    if name in ("is_empty", "len"):
        t = whole_text(I, a[0])
        return t == "" if name == "is_empty" else len(t.encode())
    if name in ("extension", "file_stem", "file_name"):
        f = file_name(whole_text(I, a[0]))
        if f is None or name == "file_name":
            return opt_text(f)
        i = f.rfind(".")
        if name == "file_stem":
            return opt_text(f if i <= 0 else f[:i])
        return opt_text(None if i <= 0 else f[i + 1:])
    if name == "eq_ignore_ascii_case":
        return whole_text(I, a[0]).lower() == whole_text(I, a[1]).lower()
    return NotImplemented


def surroundings(I, p, trait, name, a, info):
    """Standard input and the process's arguments, as the scenario at hand has them."""
    if p == "std::io::stdio::stdin":
        return NatV("Stdin", ())
    if p in ("std::env::args_os", "std::env::args"):
        return It("list", tuple(I.argv), 0, len(I.argv))
    v = a[0] if a and (trait is not None or "std::io::" in p) else None
    while isinstance(v, Ref):
        v = I.load(v)
    if isinstance(v, NatV) and v.kind == "Stdin":
        if name in ("lock", "by_ref"):
            return v
        if name == "is_terminal":
            return I.stdin is None
        if name == "read_to_end":
            if I.stdin is None:
                raise Unsupported("reading from a terminal")
            r = a[1]
            while isinstance(I.load(r), Ref):
                r = I.load(r)
            I.store(r, VecV(list(I.load(r).items) + list(I.stdin)))
            return M.ok(len(I.stdin))
        raise Unsupported("standard input: " + name)
    return NotImplemented


def extra(I, p, path, trait, name, args, info):
    if getattr(I, "argv", None) is not None:
        h = clapmodels.call(I, p, path, trait, name, args, info)
        if h is NotImplemented:
            h = surroundings(I, p, trait, name, args, info)
        if h is not NotImplemented:
            return h
    for q in ((p, path) if p != path else (p,)):
        if q.startswith(("std::path::", "std::ffi::os_str::", "<std::path::", "<std::ffi::os_str::")) and trait is None:
            r = pathm(I, name, args, info)
            if r is not NotImplemented:
                return r
    for q in ((p, path) if p != path else (p,)):
        if q.startswith("alloc::collections::vec_deque::VecDeque::<"):
            info.path = path
            return deqm(I, name, args, info)
        if q.startswith(MAPT[0]):
            info.path = path
            return mapx(I, name, args, info)
        if q.startswith(MAPT[1]):
            info.path = path
            return mapx(I, name, args, info, True)
        if q.startswith(SETT[0]):
            info.path = path
            return setx(I, name, args, info)
        if q.startswith(SETT[1]):
            info.path = path
            return setx(I, name, args, info, True)
        if q.startswith(("std::collections::hash::map::Entry::<", "std::collections::hash::map::OccupiedEntry::<", "std::collections::hash::map::VacantEntry::<",
                         "alloc::collections::btree::map::entry::")):
            info.path = path
            return entryx(I, name, args, info)
        if q.startswith("alloc::collections::binary_heap::BinaryHeap::<"):
            info.path = path
            return heapm(I, name, args, info)
        if q.startswith(("core::str::<impl str>::", "alloc::str::<impl str>::")):
            info.path = path
            return strm(I, name, args, info)
        if q.startswith(("alloc::string::String::", "alloc::str::")):
            info.path = path
            return stringm(I, name, args, info)
        if q.startswith("core::iter::adapters::peekable::Peekable") and name in ("next_if", "next_if_eq", "peek_mut"):
            return peek_method(I, name, args, info)
        if q.startswith("core::slice::iter::ChunksExact") and name in ("remainder", "into_remainder"):
            v = I.deref(args[0])
            b, lo, hi, k = v.d[1:]
            return Ref(b.obj, b.path, (lo + (hi - lo) // k * k, hi))
        if q.startswith("core::slice::iter::") and name in ("as_slice", "as_mut_slice", "into_slice"):
            v = I.deref(args[0])
            if isinstance(v, NatV) and v.kind == "It" and v.d[0] == "slice":
                b, lo, hi = v.d[1:]
                return Ref(b.obj, b.path, (lo, hi))
            if isinstance(v, NatV) and v.kind == "It" and v.d[0] == "list":
                return I.mkref(VecV(v.d[1][v.d[2]:v.d[3]]))
        if q.startswith("core::fmt::") or (trait is not None and trait.startswith("core::fmt::")):
            r = formatterm(I, p, trait, name, args, info)
            if r is not NotImplemented:
                return r
        if q.startswith("alloc::borrow::Cow::<") and args and isinstance(I.deref(args[0]), StrV):
            if name in ("into_owned",):
                return I.deref(args[0])
            if name == "to_mut":
                return text_ref(I, args[0])
            if name in ("is_borrowed", "is_owned"):
                raise Unsupported("ownership of a copy-on-write text")
    return NotImplemented
