"""A path-sensitive abstract interpreter for the dumped MIR.

Values are abstract: integers and floats are exact polynomials over symbolic atoms (dom.py), booleans may be undecided
conditions, strings are sequences of literal and symbolic parts, heap cells carry symbolic reference counts. A branch on
an undecided condition explores both sides; every explored path ends in an Outcome. Calls are followed into the callee's
MIR; library data structures with no useful MIR have transfer functions in models.py.
"""
import time
import sys
from fractions import Fraction
import dom
import fp
from dom import Poly, Cond, lift

sys.setrecursionlimit(20000)

INT_BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "i128": 128, "u128": 128,
            "isize": 64, "usize": 64}


class Panic(Exception):
    """The analysed code panics on this path."""


class Unsupported(Exception):
    """The analysis has no transfer function for something on this path."""


def arbitrary_word(v):
    """A word the scenario chose freely (an argument, an element): using it as an address is never right."""
    return isinstance(v, Poly) and bool(v.d) and all(a.kind in ("sym", "usym") for a in v.atoms())


class UB(Exception):
    """The analysed code breaks a memory rule on this path (use after free, double free, ...)."""


class PathCut(Exception):
    """This path is not explored further (infeasible, or a bound was reached)."""


class CaseSplit(Exception):
    def __init__(self, options):
        self.options = options


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def with_field(self, i, v):
        f = list(self.f)
        f[i] = v
        return Agg(self.ty, self.var, f)

    @property
    def name(self):
        if self.ty is not None and self.ty.variants:
            return self.ty.variants[self.var][0]
        return None

    def __eq__(self, o):
        return isinstance(o, Agg) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))

    def __repr__(self):
        n = self.ty.path.split("::")[-1] if self.ty is not None and self.ty.path else ""
        if self.ty is not None and self.ty.k == "enum":
            n += "::" + self.name
        return "%s(%s)" % (n, ", ".join(map(repr, self.f)))


class VecV:
    """A vector, array or slice contents with known shape."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, VecV) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class Ref:
    """A pointer to a place (obj, path); rng restricts it to a sub-slice."""
    __slots__ = ("obj", "path", "rng")

    def __init__(self, obj, path=(), rng=None):
        self.obj, self.path, self.rng = obj, path, rng

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.obj, self.path, self.rng) == (o.obj, o.path, o.rng)

    def __hash__(self):
        return hash((self.obj, self.path, self.rng))

    def __repr__(self):
        return "&%s%s%s" % (self.obj, "".join(".%s" % (p,) for p in self.path), self.rng or "")


class NatV:
    """A value with a native representation: kind names it, d is its (immutable) payload."""
    __slots__ = ("kind", "d")

    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __eq__(self, o):
        return isinstance(o, NatV) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash((self.kind, self.d))

    def __repr__(self):
        return "%s%r" % (self.kind, self.d)


class FnItem:
    __slots__ = ("fn", "path", "trait", "targs")

    def __init__(self, fn, path, trait, targs):
        self.fn, self.path, self.trait, self.targs = fn, path, trait, targs

    def __repr__(self):
        return "fn:" + self.path


class StrV:
    """Text (or bytes) as a sequence of parts: python str literals and symbolic parts (any hashable tuple)."""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    p = out.pop() + p
                    if not p.isascii():
                        # bytes that only together form a character
                        p = p.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape")
            out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __add__(self, o):
        return StrV(self.parts + o.parts)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "str" + repr(list(self.parts))


class Opaque:
    """An unknown value. Two opaque values with equal keys are equal."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "?%r" % (self.key,)


TRANSPARENT = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop")
UNIT = Agg(None, 0, ())
MOVED = Opaque("moved")


class Outcome:
    __slots__ = ("kind", "value", "detail", "interp", "decisions", "subst")

    def __repr__(self):
        return "Outcome(%s, %r, %s)" % (self.kind, self.value, self.detail)


class CallInfo:
    __slots__ = ("path", "trait", "fn", "targs", "dest_ty", "line", "caller", "argtys")


class Interp:
    """One abstract path. Create through explore()."""

    def __init__(self, prog, models, decisions=(), subst=None, limits=None):
        self.P = prog
        self.models = models
        self.heap = {}
        self.n = 0
        self.decisions = list(decisions)
        self.pos = 0
        self.alts = []
        self.facts = {}
        self.bounds = {}
        self.trace = []
        self.subst = subst or {}
        self.stack = []
        self.steps = 0
        self.max_forks = 400
        self.fresh_n = {}
        self.globals = {}
        self.cfg = limits or {}
        self.max_loop = self.cfg.get("loop", 600)
        self.max_steps = self.cfg.get("steps", 2000000)
        self.clock = 0
        self.boundary = self.cfg.get("boundary", {})
        self.visited = set()
        self.freed = set()
        self.intercept = self.argv = self.stdin = None    # scenario settings

    # ---------------------------------------------------------------- memory
    def alloc(self, v, tag="h"):
        self.n += 1
        o = "%s%d" % (tag, self.n)
        self.heap[o] = v
        return o

    def fresh(self, name):
        k = self.fresh_n.get(name, 0)
        self.fresh_n[name] = k + 1
        return "%s#%d" % (name, k) if k else name

    def get_obj(self, obj):
        if obj in self.freed:
            raise UB("use of freed memory %s" % obj)
        try:
            return self.heap[obj]
        except KeyError:
            raise Unsupported("dangling object %s" % obj)

    def load(self, ref):
        v = self.get_obj(ref.obj)
        for p in ref.path:
            v = self.sub(v, p)
        return v

    def sub(self, v, p):
        if p == "-nul":
            return self.models.cmodels.strip_nul(self, v)
        if isinstance(p, tuple) and p[0] in ("b", "as"):
            if isinstance(v, NatV) and v.kind == "Buf":
                v = self.get_obj(v.d)
            return self.models.bytes_get(self, v, p[1], p[2] if p[0] == "as" else None)
        if isinstance(v, Agg):
            if isinstance(p, int):
                if p < len(v.f):
                    return v.f[p]
        elif isinstance(v, VecV):
            if isinstance(p, int):
                if 0 <= p < len(v.items):
                    return v.items[p]
                raise Unsupported("index %r out of range of %d items" % (p, len(v.items)))
        elif isinstance(v, NatV):
            h = self.models.nat_sub(self, v, p)
            if h is not None:
                return h
        raise Unsupported("projection %r of %s" % (p, short(v)))

    def upd(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(v, NatV) and v.kind == "Buf":
            self.heap[v.d] = self.upd(self.get_obj(v.d), path, new)
            return v
        if isinstance(p, tuple) and p[0] in ("b", "as"):
            ty = p[2] if p[0] == "as" else None
            if path[1:]:
                new = self.upd(self.models.bytes_get(self, v, p[1], ty), path[1:], new)
            return self.models.bytes_put(self, v, p[1], ty, new)
        if isinstance(v, Agg) and isinstance(p, int) and p < len(v.f):
            return v.with_field(p, self.upd(v.f[p], path[1:], new))
        if isinstance(v, VecV) and isinstance(p, int) and 0 <= p < len(v.items):
            it = list(v.items)
            it[p] = self.upd(it[p], path[1:], new)
            return VecV(it)
        if isinstance(v, NatV):
            h = self.models.nat_upd(self, v, p, lambda old: self.upd(old, path[1:], new))
            if h is not None:
                return h
        raise Unsupported("store to projection %r of %s" % (p, short(v)))

    def store(self, ref, new):
        if not ref.path:
            self.get_obj(ref.obj)
            self.heap[ref.obj] = new
        else:
            self.heap[ref.obj] = self.upd(self.get_obj(ref.obj), ref.path, new)

    def mkref(self, v, tag="t"):
        return Ref(self.alloc(v, tag))

    def deref(self, v):
        """Follow references until a non-reference value."""
        while isinstance(v, Ref):
            if v.rng is not None:
                return VecV(self.slice_items(v))
            v = self.load(v)
        if isinstance(v, NatV) and v.kind == "Buf":
            return self.get_obj(v.d)
        return v

    def slice_len(self, v):
        if isinstance(v, StrV):
            t = v.lit()
            if t is not None:
                return len(t.encode("utf-8", "surrogateescape"))
            return Poly({((dom.atom("len", v), 1),): 1}, False)
        if isinstance(v, Ref):
            if v.rng is not None:
                return v.rng[1] - v.rng[0]
            return self.slice_len(self.load(v))
        if isinstance(v, VecV):
            return len(v.items)
        if isinstance(v, NatV):
            h = self.models.nat_len(self, v)
            if h is not None:
                return h
        raise Unsupported("length of %s" % short(v))

    def slice_items(self, v):
        """The items of a slice reference, vector or array."""
        rng = None
        while isinstance(v, Ref):
            if v.rng is not None:
                rng = v.rng
            v = self.load(v)
        if isinstance(v, NatV) and v.kind == "Buf":
            v = self.get_obj(v.d)
        if isinstance(v, VecV):
            return v.items if rng is None else v.items[rng[0]:rng[1]]
        if isinstance(v, StrV) and v.lit() is not None:
            return tuple(v.lit().encode("utf-8", "surrogateescape"))
        raise Unsupported("items of %s" % short(v))

    def elem_ref(self, v, i):
        """A reference to element i of a slice reference."""
        base = 0
        while True:
            if not isinstance(v, Ref):
                raise Unsupported("element of %s" % short(v))
            if v.rng is not None:
                base += v.rng[0]
            t = self.load(v)
            if isinstance(t, Ref):
                v = t
                continue
            if isinstance(t, NatV) and t.kind == "Buf":
                return Ref(t.d, (base + i,))
            return Ref(v.obj, v.path + (base + i,))

    # ---------------------------------------------------------------- decisions
    def choose(self, n, what=None):
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            if self.pos >= self.max_forks:
                raise PathCut("fork bound")
            d = 0
            self.decisions.append(0)
            for k in range(1, n):
                self.alts.append(self.decisions[:self.pos] + [k])
        self.pos += 1
        return d

    def truth(self, c):
        """Decide a boolean, forking if it is not determined."""
        if c is True or c is False:
            return c
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, Poly):
            if c.is_const():
                return bool(c.const())
            c = Cond("eq0", c, True)
        if isinstance(c, Opaque):
            c = Cond("atom", c.key)
        if not isinstance(c, Cond):
            raise Unsupported("branch on %s" % short(c))
        if c.kind in ("and", "or"):
            a = self.truth(c.arg[0])
            if c.kind == "and":
                r = a and self.truth(c.arg[1])
            else:
                r = a or self.truth(c.arg[1])
            return (not r) if c.neg else r
        r = self._decide(c.kind, c.arg)
        return (not r) if c.neg else r

    def known(self, c):
        """True / False if determined, None otherwise; never forks."""
        if isinstance(c, bool):
            return c
        if isinstance(c, Cond) and c.kind not in ("and", "or"):
            r = self._lookup(c.kind, c.arg)
            return r if r is None or not c.neg else not r
        return None

    def _base(self, p):
        """p = s * (base) + c with base having no constant term and leading coefficient 1."""
        c = p.d.get((), 0)
        rest = {m: x for m, x in p.d.items() if m}
        lead = rest[min(rest, key=lambda m: [(a.id, e) for a, e in m])]
        base = Poly({m: dom._norm(Fraction(x) / lead) for m, x in rest.items()}, p.flt)
        return base, lead, c

    def _lookup(self, kind, p):
        if kind == "atom":
            return self.facts.get(("atom", p))
        if p.is_const():
            v = p.const()
            return {"lt0": v < 0, "eq0": v == 0, "near0": abs(v) < 1e-9}[kind]
        a = dom.approx(p, self.cfg.get("numeric"))
        if a is not None:
            return {"lt0": a < -1e-12, "eq0": abs(a) < 1e-12, "near0": abs(a) < 1e-9}[kind]
        if kind == "near0":
            base, lead, c = self._base(p)
            return self.facts.get(("near0", base, dom._norm(Fraction(c) / lead)))
        base, lead, c = self._base(p)
        t = dom._norm(Fraction(-c) / lead)          # p = 0  <=>  base = t
        lo, hi, ne = self._bnd(base)
        if kind == "eq0":
            if lo is not None and (t < lo[0] or (t == lo[0] and lo[1])):
                return False
            if hi is not None and (t > hi[0] or (t == hi[0] and hi[1])):
                return False
            if t in ne:
                return False
            if lo is not None and hi is not None and lo[0] == hi[0] == t:
                return True
            return None
        # p < 0  <=>  base < t  (lead > 0)  or  base > t  (lead < 0)
        if lead > 0:
            if lo is not None and t <= lo[0]:
                return False
            if hi is not None and (t > hi[0] or (t == hi[0] and hi[1])):
                return True
            return None
        if hi is not None and t >= hi[0]:
            return False
        if lo is not None and (t < lo[0] or (t == lo[0] and lo[1])):
            return True
        return None

    def _bnd(self, base):
        b = self.bounds.get(base)
        if b is None:
            lo = hi = None
            if len(base.d) == 1:
                (m, c), = base.d.items()
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if a.kind in ("len", "cnt", "usym", "abs"):
                        lo = (0, False)
                    elif a.kind == "pos":
                        lo = (1, False)
                    elif a.kind == "prob" or a.kind == "unit":
                        lo, hi = (0, False), (1, a.kind == "unit")
                elif all(e % 2 == 0 for _, e in m):
                    lo = (0, False)
            elif all((c > 0 and all(e % 2 == 0 for _, e in m)) for m, c in base.d.items()):
                lo = (0, False)
            return (lo, hi, frozenset())
        return b

    def assume(self, kind, p, val):
        if kind == "atom":
            self.facts[("atom", p)] = val
            return
        if p.is_const():
            return
        base, lead, c = self._base(p)
        if kind == "near0":
            self.facts[("near0", base, dom._norm(Fraction(c) / lead))] = val
            if not val:
                return
            return
        t = dom._norm(Fraction(-c) / lead)
        lo, hi, ne = self._bnd(base)
        integer = not p.flt
        if kind == "eq0":
            if val:
                lo = hi = (t, False)
            else:
                ne = ne | {t}
        else:
            below = (lead > 0) == val        # constraint is on the low side of t
            strict = val
            if below:                         # base < t or base <= t
                nb = (t, strict)
                if hi is None or nb[0] < hi[0] or (nb[0] == hi[0] and strict):
                    hi = nb
            else:
                nb = (t, strict)
                if lo is None or nb[0] > lo[0] or (nb[0] == lo[0] and strict):
                    lo = nb
        if integer:
            if lo is not None:
                x = lo[0]
                if lo[1]:
                    x = x + 1 if Fraction(x).denominator == 1 else -((-Fraction(x)).__floor__())
                while x in ne:
                    x += 1
                lo = (x, False)
            if hi is not None:
                x = hi[0]
                if hi[1]:
                    x = x - 1 if Fraction(x).denominator == 1 else Fraction(x).__floor__()
                while x in ne:
                    x -= 1
                hi = (x, False)
        if lo is not None and hi is not None and (lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1]))):
            raise PathCut("infeasible")
        self.bounds[base] = (lo, hi, ne)

    def _decide(self, kind, p):
        r = self._lookup(kind, p)
        if r is not None:
            return r
        if kind == "near0":
            return self.decide_near0(p)
        k = self.choose(2, (kind, p))
        val = k == 0
        self.assume(kind, p, val)
        return val

    def decide_near0(self, p):
        h = self.cfg.get("near0")
        if h is not None:
            r = h(self, p)
            if r is not None:
                if r is False:
                    self.assume("near0", p, False)
                return r
        k = self.choose(2, ("near0", p))
        val = k == 1
        self.assume("near0", p, val)
        return val

    def concrete(self, v, what="value"):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Poly) and v.is_const():
            c = v.const()
            if isinstance(c, int):
                return c
        raise Unsupported("needs a known %s, got %s" % (what, short(v)))

    # ---------------------------------------------------------------- MIR
    def frame_type(self, fr, place):
        t = fr.fn.locals[place[0]]
        for e in place[1]:
            t = self.step_type(t, e)
        return t

    def step_type(self, t, e):
        if e[0] == "*":
            if t is None:
                return None
            if t.elem is not None:
                return t.elem
            if t.path == "alloc::boxed::Box" and t.args:
                return t.args[0]
            return None
        if e[0] == "f":
            return e[2]
        if e[0] in ("i", "c"):
            return t.elem if t is not None else None
        return t

    def op_ty(self, fr, op):
        if op[0] in ("c", "m"):
            return self.frame_type(fr, op[1])
        if op[0] == "k":
            return op[2]
        return None

    def place(self, fr, pl):
        """Resolve a MIR place to a Ref, or ('val', v) for by-value fat data such as string literals."""
        obj = fr.loc(pl[0])
        path = ()
        rng = None
        byval = None
        t = fr.fn.locals[pl[0]]
        for e in pl[1]:
            bt, t = t, self.step_type(t, e)
            if byval is not None:
                if e[0] == "*":
                    if isinstance(byval, Ref):
                        obj, path, rng, byval = byval.obj, byval.path, byval.rng, None
                    continue
                if e[0] == "f":
                    byval = self.sub(byval, e[1])
                    continue
                if e[0] == "i" and isinstance(byval, StrV):
                    byval = self.models.str_index(self, byval, self.heap[fr.loc(e[1])])
                    continue
                raise Unsupported("projection %r of %s" % (e, short(byval)))
            if e[0] == "*":
                v = self.load(Ref(obj, path))
                r = self.pointee(v)
                if isinstance(r, Ref):
                    obj, path, rng = r.obj, r.path, r.rng
                    if path and isinstance(path[-1], tuple) and path[-1][0] in ("b", "as") and t is not None and t.size is not None:
                        if path[-1][0] == "b" or path[-1][2] is not t:
                            path = path[:-1] + (("as", path[-1][1], t),)
                else:
                    byval = r
            elif e[0] == "f":
                cur = None
                if e[1] == 0:
                    cur = self.load(Ref(obj, path))
                    if isinstance(cur, Ref) or (isinstance(cur, NatV) and cur.kind == "Box") or isinstance(cur, StrV):
                        continue            # newtype around a pointer (Unique, NonNull, ...)
                    if isinstance(cur, (int, Poly)) and e[2] is not None:
                        continue            # newtype around a scalar
                if bt is not None and bt.path in TRANSPARENT:
                    cur = self.load(Ref(obj, path))
                    if not (isinstance(cur, Agg) and cur.ty is not None and cur.ty.path == bt.path):
                        continue
                path = path + (e[1],)
            elif e[0] == "v":
                self.refine(Ref(obj, path), e[1])
            elif e[0] == "i":
                i = self.heap[fr.loc(e[1])]
                if isinstance(i, Poly) and i.is_const():
                    i = i.const()
                i = i + rng[0] if rng else i
                if isinstance(i, Poly) and i.is_const():
                    i = i.const()
                path, rng = path + (i,), None
            elif e[0] == "c":
                n = None
                i = e[1]
                if e[3]:
                    n = self.concrete(self.slice_len(Ref(obj, path, rng)), "length")
                    i = n - i
                path, rng = path + ((rng[0] if rng else 0) + i,), None
            elif e[0] == "s":
                n = self.concrete(self.slice_len(Ref(obj, path, rng)), "length")
                lo, hi = e[1], (n - e[2] if e[3] else e[2])
                b = rng[0] if rng else 0
                rng = (b + lo, b + hi)
            else:
                raise Unsupported("projection %r" % (e,))
        if byval is not None:
            return ("val", byval)
        return Ref(obj, path, rng)

    def refine(self, ref, var):
        pass

    def pointee(self, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, NatV):
            if v.kind == "Box":
                return Ref(v.d)
            h = self.models.nat_deref(self, v)
            if h is not None:
                return h
        if isinstance(v, StrV):
            return v
        if isinstance(v, VecV):     # constant slices
            return v
        if isinstance(v, Agg) and len(v.f) > 1 and v.ty is not None and (v.ty.path or "").split("::")[0] in self.models.LOCAL:
            raise UB("a %s is used as an address" % v.ty.path.rsplit("::", 1)[-1])
        if type(v) is int and v == 0:
            raise UB("dereference of the null pointer")
        if arbitrary_word(v):
            raise UB("dereference of the arbitrary word %s" % short(v))
        raise Unsupported("dereference of %s" % short(v))

    def read(self, fr, pl):
        r = self.place(fr, pl)
        if isinstance(r, tuple):
            return r[1]
        if r.rng is not None:
            return VecV(self.slice_items(r))
        return self.load(r)

    def operand(self, fr, op):
        k = op[0]
        if k == "c":
            return self.read(fr, op[1])
        if k == "m":
            return self.read(fr, op[1])
        if k == "k":
            return self.const(op[1], op[2], op[3])
        return False       # runtime checks are off

    def const(self, c, ty, name=None):
        k = c[0]
        if name is not None and k == "n" and "consts" in self.cfg:
            v = self.cfg["consts"](name, c[1])
            if v is not None:
                return v
        if k == "n":
            return c[1]
        if k == "b":
            return c[1]
        if k == "fl":
            return dom.fconst(c[1])
        if k == "str":
            return StrV((c[1],))
        if k == "cstr":
            return NatV("CStr", self.alloc(StrV((c[1],)), "k"))
        if k == "bytes":
            return VecV(c[1])
        if k == "ch":
            return c[1]
        if k == "fn":
            return FnItem(c[1], c[2], c[3], c[4])
        if k == "agg":
            h = self.models.const_agg(self, c, name)
            if h is not None:
                return h
            if c[1].k == "array":
                return VecV([self.const(x, None) for x in c[3]])
            return Agg(c[1] if c[1].k != "tuple" else None, c[2], [self.const(x, None) for x in c[3]])
        if k == "slice":
            return self.mkref(VecV([self.const(x, c[1]) for x in c[2]]), "k")
        if k == "ref":
            v = self.const(c[1], None)
            if isinstance(v, StrV):
                return v
            return self.mkref(v, "k")
        if k == "zst":
            if c[1].k == "closure":
                return Agg(c[1], 0, ())
            if c[1].k == "fndef":
                return FnItem(c[1].body, c[1].path, None, c[1].args)
            return Agg(c[1], 0, ())
        if k == "fnp":
            return FnItem(c[1], c[2], None, [])
        if k == "addr":
            return c[1]
        if k == "static":
            return self.global_ref(c[1])
        if k == "bits":
            return c[1]
        return Opaque(("const", str(c), name))

    def global_ref(self, name):
        if name not in self.globals:
            self.globals[name] = self.alloc(Opaque(("static", name)), "g:")
        return Ref(self.globals[name])

    def rvalue(self, fr, rv, line):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k in ("ref", "raw"):
            r = self.place(fr, rv[1])
            if isinstance(r, tuple):
                return r[1]
            # reborrow of a by-value fat pointer
            return r
        if k == "bin":
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            return self.binop(rv[1], a, b, self.op_ty(fr, rv[2]))
        if k == "un":
            a = self.operand(fr, rv[2])
            return self.unop(rv[1], a, self.op_ty(fr, rv[2]))
        if k == "cast":
            return self.cast(rv[1], self.operand(fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == "agg":
            ops = [self.operand(fr, o) for o in rv[4]]
            if rv[1] == "array":
                return VecV(ops)
            if rv[1] == "tuple":
                return Agg(None, 0, ops) if ops else UNIT
            if rv[1] == "rawptr":
                return self.models.raw_fat(self, ops)
            if rv[1] == "adt":
                h = self.models.build_adt(self, rv[2], rv[3], ops)
                if h is not None:
                    return h
            return Agg(rv[2], rv[3], ops)
        if k == "disc":
            r = self.place(fr, rv[1])
            v = r[1] if isinstance(r, tuple) else self.load(r)
            if isinstance(v, Agg):
                if v.ty is not None and v.ty.variants:
                    return v.ty.variants[v.var][1]
                return v.var
            if isinstance(v, (int, Poly)):
                return v
            h = self.models.disc(self, v, r, self.frame_type(fr, rv[1]))
            if h is not None:
                return h
            raise Unsupported("discriminant of %s" % short(v))
        if k == "rep":
            n = rv[2]
            return VecV([self.operand(fr, rv[1])] * n)
        if k == "tls":
            return self.global_ref(rv[1])
        raise Unsupported("rvalue %s" % k)

    def wrap(self, v, ty):
        b = INT_BITS.get(ty.s) if ty is not None else None
        if b is None:
            return v
        v &= (1 << b) - 1
        if ty.s[0] == "i" and v >> (b - 1):
            v -= 1 << b
        return v

    def fpop(self, op, a, b):
        x, y = fp.f(a), fp.f(b)
        if x is None or y is None:
            o = self.unit_arith(op, a, b)
            if o is not None:
                return o
            raise Unsupported("operator %s on %s and %s" % (op, short(a), short(b)))
        return fp.CMP[op](x, y) if op in fp.CMP else fp.BIN[op](x, y)

    def unit_arith(self, op, a, b):
        """A number drawn from the unit interval, scaled or moved by finite constants (rounding left out)."""
        v = []
        for x in (a, b):
            if type(x) is float:
                if x != x or x in (float("inf"), float("-inf")):
                    return None
                x = lift(Fraction(x), True)
            if not isinstance(x, Poly):
                return None
            v.append(x)
        if not any(t.kind == "unit" for x in v for t in x.atoms()):
            return None
        if op == "Add":
            return v[0] + v[1]
        if op == "Sub":
            return v[0] - v[1]
        if op == "Mul":
            return v[0] * v[1]
        return None

    def binop(self, op, a, b, ty):
        if type(a) is float or type(b) is float:
            return self.fpop(op, a, b)
        if isinstance(a, Poly) and a.is_const() and not a.flt and isinstance(a.const(), int):
            a = a.const()
        if isinstance(b, Poly) and b.is_const() and not b.flt and isinstance(b.const(), int):
            b = b.const()
        if op.endswith("Unchecked"):
            op = op[:-9]
        over = op.endswith("WithOverflow")
        if over:
            op = op[:-12]
        isf = ty is not None and ty.k == "float"
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b, ty)
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Cond) or isinstance(b, Cond):
            return self.boolop(op, a, b)
        if isinstance(a, int) and isinstance(b, int) and not isf:
            if op == "Add":
                r = a + b
            elif op == "Sub":
                r = a - b
            elif op == "Mul":
                r = a * b
            elif op in ("Div", "Rem"):
                if b == 0:
                    raise Panic("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "Div" else a - q * b
            elif op == "BitAnd":
                r = a & b
            elif op == "BitOr":
                r = a | b
            elif op == "BitXor":
                r = a ^ b
            elif op == "Shl":
                bits = INT_BITS.get(ty.s, 64)
                if over and b >= bits:
                    return Agg(None, 0, (self.wrap(a << (b % bits), ty), True))
                r = a << (b % bits)
                w = self.wrap(r, ty)
                return Agg(None, 0, (w, False)) if over else w
            elif op == "Shr":
                bits = INT_BITS.get(ty.s, 64)
                r = a >> (b % bits)
            elif op == "Offset":
                raise Unsupported("pointer offset on integer")
            elif op == "Cmp":
                return self.models.ordering(self, (a > b) - (a < b))
            else:
                raise Unsupported("binop " + op)
            w = self.wrap(r, ty)
            return Agg(None, 0, (w, w != r)) if over else w
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            x, y = lift(a, isf), lift(b, isf)
            r = None
            if op == "Add":
                r = x + y
            elif op == "Sub":
                r = x - y
            elif op == "Mul":
                r = x * y
            elif op == "Div":
                if isf:
                    if not y.d:
                        r = dom.A("fn", ("div0", x))
                    else:
                        r = x * dom.recip(y)
                else:
                    if y.is_const() and y.const() == 1:
                        r = x
                    else:
                        r = dom.A("fn", ("idiv", x, y), False)
            elif op == "Cmp":
                if self.truth(self.compare("Lt", a, b, ty)):
                    return self.models.ordering(self, -1)
                if self.truth(self.compare("Eq", a, b, ty)):
                    return self.models.ordering(self, 0)
                return self.models.ordering(self, 1)
            else:
                h = self.models.sym_binop(self, op, x, y, ty)
                if h is not None:
                    r = h
                elif op in ("BitAnd", "BitOr", "BitXor"):
                    kx = sorted((x, y), key=repr)
                    r = dom.A("fn", (op, kx[0], kx[1]), False)
                else:
                    r = dom.A("fn", (op, x, y), isf)
            if not isf and r.is_const() and isinstance(r.const(), int):
                r = r.const()
            return Agg(None, 0, (r, False)) if over else r
        h = self.models.binop(self, op, a, b, ty, over)
        if h is not None:
            return h
        raise Unsupported("binop %s on %s, %s" % (op, short(a), short(b)))

    def boolop(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool):
                if isinstance(y, int) and not isinstance(y, bool):
                    break
                if op == "BitAnd":
                    return y if x else False
                if op == "BitOr":
                    return True if x else y
                if op == "BitXor":
                    return self.bnot(y) if x else y
        if isinstance(a, Cond) and isinstance(b, Cond):
            if op == "BitAnd":
                return Cond("and", (a, b))
            if op == "BitOr":
                return Cond("or", (a, b))
            if op == "BitXor":
                return self.bnot(b) if self.truth(a) else b
        if isinstance(a, bool) and isinstance(b, bool):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
        raise Unsupported("boolean op %s" % op)

    def bnot(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Cond):
            return v.negate()
        raise Unsupported("not %s" % short(v))

    def compare(self, op, a, b, ty=None):
        if type(a) is float or type(b) is float:
            return self.fpop(op, a, b)
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            if op in ("Eq", "Ne"):
                x, y = (a, b) if isinstance(b, bool) or not isinstance(a, bool) else (b, a)
                if isinstance(x, int) and not isinstance(x, bool):
                    x = bool(x)
                if isinstance(y, int) and not isinstance(y, bool):
                    y = bool(y)
                if isinstance(x, bool) and isinstance(y, bool):
                    r = x == y
                elif isinstance(y, bool):
                    r = x if y else self.bnot(x)
                else:
                    r = self.truth(x) == self.truth(y)
                return r if op == "Eq" else self.bnot(r)
            a, b = int(self.truth(a)), int(self.truth(b))
        if isinstance(a, int) and isinstance(b, int):
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            isf = ty is not None and ty.k == "float"
            x, y = lift(a, isf), lift(b, isf)
            num = self.cfg.get("numeric")
            if num and op not in ("Eq", "Ne"):
                d = dom.approx(x - y, num)
                if d is not None and abs(d) > 1e-15:
                    return (d < 0) == (op in ("Lt", "Le"))
            for u, v, lt in ((x, y, True), (y, x, False)):
                # |p| compared with a tiny constant
                if v.is_const() and 0 < v.const() < Fraction(1, 10 ** 6) and not u.is_const() and (self._is_abs(u) or self._nonneg(u)):
                    near = Cond("near0", self._abs_arg(u) if self._is_abs(u) else u)
                    if (op in ("Lt", "Le")) == lt:
                        return self._simp(near)
                    if op in ("Gt", "Ge", "Lt", "Le"):
                        return self._simp(near.negate())
            d = x - y
            if op in ("Eq", "Ne"):
                c = Cond("eq0", self._canon(d), op == "Ne")
            elif op == "Lt":
                c = Cond("lt0", d)
            elif op == "Ge":
                c = Cond("lt0", d, True)
            elif op == "Gt":
                c = Cond("lt0", -d)
            else:
                c = Cond("lt0", -d, True)
            return self._simp(c)
        h = self.models.compare(self, op, a, b, ty)
        if h is not None:
            return h
        if op in ("Eq", "Ne"):
            if isinstance(a, (Ref, int, Opaque, NatV)) and isinstance(b, (Ref, int, Opaque, NatV)):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    if a == b:
                        return op == "Eq"
                    return self._simp(Cond("atom", ("eq", a, b), op == "Ne"))
                return (a == b) == (op == "Eq")
        raise Unsupported("compare %s on %s, %s" % (op, short(a), short(b)))

    def _simp(self, c):
        k = self.known(c)
        return c if k is None else k

    def _canon(self, p):
        if not p.d or p.is_const():
            return p
        lead = p.d[min(p.d, key=lambda m: [(a.id, x) for a, x in m])]
        return -p if lead < 0 else p

    def _nonneg(self, p):
        return all(c > 0 and all((isinstance(e, int) and e % 2 == 0) or (a.kind == "pow" and e == Fraction(1, 2)) for a, e in m)
                   for m, c in p.d.items())

    def _is_abs(self, p):
        return len(p.d) == 1 and next(iter(p.d.values())) == 1 and len(next(iter(p.d))) == 1 and next(iter(p.d))[0][0].kind == "abs" and next(iter(p.d))[0][1] == 1

    def _abs_arg(self, p):
        return next(iter(p.d))[0][0].key

    def fabs(self, p):
        p = lift(p, True)
        a = dom.approx(p)
        if a is not None:
            return -p if a < 0 else p
        p = self._canon(p)
        return Poly({((dom.atom("abs", p), 1),): 1}, p.flt)

    def unop(self, op, a, ty):
        if type(a) is float and op == "Neg":
            return -a
        if op == "Not":
            if isinstance(a, (bool, Cond)):
                return self.bnot(a)
            if isinstance(a, int):
                return self.wrap(~a, ty)
            if isinstance(a, Poly):
                return dom.A("fn", ("bitnot", a), False)
        if op == "Neg":
            if isinstance(a, int) and not (ty is not None and ty.k == "float"):
                return self.wrap(-a, ty)
            return -lift(a)
        if op == "PtrMetadata":
            return self.slice_len(a)
        raise Unsupported("unop %s on %s" % (op, short(a)))

    def cast(self, kind, v, src, dst):
        if kind in ("IntToInt",):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return int(self.truth(v))
            if isinstance(v, int):
                return self.wrap(v, dst)
            if isinstance(v, Poly):
                return self.models.int_cast(self, v, src, dst)
            if isinstance(v, Agg) and v.ty is not None and v.ty.variants:
                return self.wrap(v.ty.variants[v.var][1], dst)
        if kind == "IntToFloat":
            if isinstance(v, int):
                return lift(int(v), True)
            if isinstance(v, Poly):
                return Poly(v.d, True)
        if kind == "FloatToInt" and type(v) is float:
            b = INT_BITS[dst.s]
            return fp.to_int(v, -(1 << b - 1), (1 << b - 1) - 1) if dst.s[0] == "i" else fp.to_int(v, 0, (1 << b) - 1)
        if kind == "FloatToInt":
            p = lift(v, True)
            if p.is_const():
                c = Fraction(p.const())
                b = INT_BITS.get(dst.s, 64)
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if dst.s[0] == "i" else (0, (1 << b) - 1)
                return max(lo, min(hi, int(c)))
            return dom.A("fn", ("trunc", p, dst.s), False)
        if kind == "FloatToFloat":
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr", "Subtype", "PointerExposeProvenance", "PointerWithExposedProvenance", "BoxDerefTransmute"):
            h = self.models.ptr_cast(self, v, src, dst)
            h = v if h is None else h
            if kind == "PointerExposeProvenance" and isinstance(h, int) and dst.s in INT_BITS:
                return self.wrap(int(h), dst)
            return h
        if kind.startswith("PtrCoercion"):
            if "Unsize" in kind:
                return self.models.unsize(self, v, src, dst)
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
                return v
            return v
        if kind == "Transmute":
            h = self.models.transmute(self, v, src, dst)
            return v if h is None else h
        raise Unsupported("cast %s of %s" % (kind, short(v)))

    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, info=None):
        """Call a resolved instance."""
        f = self.P.resolve(fn)
        if f is None:
            raise Unsupported("no body for %s" % fn.p)
        return self.run_body(f, args)

    def dispatch(self, fn, path, trait, targs, args, info):
        """A call through a (possibly trait) path: boundary handlers, then models, then the callee's MIR."""
        for p in ((fn.p if fn is not None else None), path):
            if p is None:
                continue
            h = self.boundary.get(p)
            if h is not None:
                return h(self, args, info)
        for p in ((fn.p if fn is not None else None), path):
            if p is None:
                continue
            h = self.models.table.get(p)
            if h is not None:
                r = h(self, args, info)
                if r is not NotImplemented:
                    return r
        h = self.models.generic(self, fn, path, trait, targs, args, info)
        if h is not NotImplemented:
            return h
        if fn is None:
            h = self.models.stdmodels.virtual(self, path, trait, args)
            if h is not None:
                return self.run_body(h[0], h[1])
            raise Unsupported("unresolved call %s" % path)
        f = self.P.resolve(fn)
        if f is None:
            h = self.models.stdmodels.virtual(self, path, trait, args)
            if h is not None:
                return self.run_body(h[0], h[1])
            raise Unsupported("no model for %s" % fn.p)
        if f.spread is not None and len(args) != f.argc:
            pass
        return self.run_body(f, args)

    def call_callable(self, fv, args):
        """Call a closure, function item or function pointer."""
        owner = None
        while isinstance(fv, Ref):
            owner = fv
            fv = self.load(fv)
        if isinstance(fv, NatV) and fv.kind == "Box":
            owner = Ref(fv.d)
            fv = self.load(owner)
        if isinstance(fv, FnItem):
            info = CallInfo()
            info.path, info.trait, info.fn, info.targs, info.dest_ty, info.line, info.caller = fv.path, fv.trait, fv.fn, fv.targs, None, 0, None
            return self.dispatch(fv.fn, fv.path, fv.trait, fv.targs, list(args), info)
        if isinstance(fv, Agg) and fv.ty is not None and fv.ty.k == "closure":
            body = self.P.resolve(fv.ty.body)
            if body is None:
                raise Unsupported("closure without body")
            t = body.locals[1]
            if t.k == "ref":
                if owner is None:
                    owner = self.mkref(fv, "c")
                return self.run_body(body, [owner] + list(args))
            return self.run_body(body, [fv] + list(args))
        h = self.models.call_native(self, fv, args)
        if h is not NotImplemented:
            return h
        if type(fv) is int or arbitrary_word(fv):
            raise UB("call of %s" % ("the null pointer" if fv == 0 else short(fv)))
        raise Unsupported("call of %s" % short(fv))

    def run_body(self, fn, args):
        if len(self.stack) > 120:
            raise PathCut("call depth")
        if len(args) != fn.argc:
            if fn.spread is not None or len(args) == 2 and isinstance(args[1], Agg) and args[1].ty is None and 1 + len(args[1].f) == fn.argc:
                args = [args[0]] + list(args[1].f)
            else:
                raise Unsupported("arity of %s" % fn.p)
        if fn.local:
            self.visited.add(fn.p)
        fr = Frame(self, fn)
        for i, a in enumerate(args):
            self.heap[fr.loc(i + 1)] = a
        self.stack.append(fr)
        blocks = fn.blocks
        bb = 0
        counts = {}
        try:
            while True:
                ss, t, line = blocks[bb]
                fr.line = line
                c = counts[bb] = counts.get(bb, 0) + 1
                if c > self.max_loop:
                    raise PathCut("loop bound in %s" % fn.p)
                self.steps += len(ss) + 1
                if self.steps > self.max_steps:
                    raise PathCut("step bound")
                if DEADLINE[0] is not None and self.steps - self.clock > 20000:
                    self.clock = self.steps
                    if time.time() > DEADLINE[0]:
                        raise PathCut("time bound of one obligation")
                for s in ss:
                    if s[0] == "=":
                        fr.line = s[3]
                        v = self.rvalue(fr, s[2], s[3])
                        dst = s[1]
                        if not dst[1]:
                            self.heap[fr.loc(dst[0])] = v
                        else:
                            self.assign(fr, dst, v)
                    elif s[0] == "sd":
                        r = self.place(fr, s[1])
                        t0 = self.frame_type(fr, s[1])
                        v = self.heap.get(r.obj) if not r.path else self.load(r)
                        nf = len(t0.variants[s[2]][2])
                        f = list(v.f[:nf]) + [MOVED] * (nf - len(v.f)) if isinstance(v, Agg) else [MOVED] * nf
                        self.store_init(r, Agg(t0, s[2], f))
                    elif s[0] == "cno":
                        self.models.copy_nonoverlapping(self, self.operand(fr, s[1]), self.operand(fr, s[2]), self.operand(fr, s[3]), self.op_ty(fr, s[1]).elem)
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "switch":
                    bb = self.switch(fr, t)
                elif k == "call":
                    bb = self.call_term(fr, t)
                elif k == "ret":
                    v = self.heap.get(fr.loc(0), UNIT)
                    return v
                elif k == "drop":
                    r = self.place(fr, t[1])
                    v = r[1] if isinstance(r, tuple) else self.load(r)
                    self.drop(v, r if isinstance(r, Ref) else None, t[3])
                    bb = t[2]
                elif k == "assert":
                    c = self.operand(fr, t[1])
                    if self.truth(c) != t[2]:
                        raise Panic("assert:" + t[4])
                    bb = t[3]
                elif k == "unreachable":
                    raise PathCut("unreachable")
                else:
                    raise Unsupported("terminator %s" % k)
        except (Panic, UB, Unsupported) as e:
            if not hasattr(e, "loc"):
                e.loc = self.where()
            raise
        finally:
            self.stack.pop()

    def store_init(self, r, v):
        if not r.path:
            self.heap[r.obj] = v
        else:
            self.store(r, v)

    def assign(self, fr, dst, v):
        # building an aggregate field by field
        base = fr.loc(dst[0])
        if base not in self.heap and all(e[0] in ("f", "v") for e in dst[1]):
            t = fr.fn.locals[dst[0]]
            n = len(t.fields) if t.fields else len(t.variants[0][2]) if t.variants else 0
            self.heap[base] = Agg(t, 0, [MOVED] * n)
        r = self.place(fr, dst)
        if isinstance(r, tuple):
            raise Unsupported("assignment to a by-value place")
        self.store(r, v)

    def switch(self, fr, t):
        v = self.operand(fr, t[1])
        targets, other = t[2], t[3]
        if isinstance(v, (bool, Cond)):
            b = 1 if self.truth(v) else 0
            for val, bb in targets:
                if val == b:
                    return bb
            return other
        if isinstance(v, int):
            ty = t[4]
            bits = INT_BITS.get(ty.s)
            x = v & ((1 << bits) - 1) if bits else v
            for val, bb in targets:
                if val == x or val == v:
                    return bb
            return other
        if isinstance(v, Poly):
            for val, bb in targets:
                ty = t[4]
                bits = INT_BITS.get(ty.s)
                sval = val - (1 << bits) if bits and ty.s[0] == "i" and val >> (bits - 1) else val
                if self.truth(self.compare("Eq", v, sval, ty)):
                    return bb
            return other
        raise Unsupported("switch on %s" % short(v))

    def call_term(self, fr, t):
        fop = t[1]
        args = [self.operand(fr, a) for a in t[2]]
        fr.line = t[5]
        info = CallInfo()
        info.dest_ty = self.frame_type(fr, t[3])
        info.line, info.caller = t[5], fr
        info.argtys = [self.op_ty(fr, a) for a in t[2]]
        if fop[0] == "k" and fop[1][0] == "fn":
            _, fn, path, trait, targs = fop[1]
            info.path, info.trait, info.fn, info.targs = path, trait, fn, targs
            if trait in FN_TRAITS:
                a = args[1]
                v = self.call_callable(args[0], a.f if isinstance(a, Agg) else (a,))
            else:
                v = self.dispatch(fn, path, trait, targs, args, info)
        else:
            fv = self.operand(fr, fop)
            v = self.call_callable(fv, args)
        if t[4] is None:
            raise PathCut("diverges")
        dst = t[3]
        if not dst[1]:
            self.heap[fr.loc(dst[0])] = v
        else:
            self.assign(fr, dst, v)
        return t[4]

    def drop(self, v, ref, ty=None):
        """Run the drop glue of a value (ref: where it lives)."""
        if isinstance(v, Agg):
            if v.ty is not None:
                if v.ty.path == "core::mem::manually_drop::ManuallyDrop":
                    return
                if v.ty.drop is not None:
                    if ref is None:
                        ref = self.mkref(v)
                    self.call_fn(v.ty.drop, [ref])
                    v = self.load(ref)
            for i, x in enumerate(v.f):
                if isinstance(x, (Agg, NatV, VecV)):
                    self.drop(x, Ref(ref.obj, ref.path + (i,)) if ref is not None else None)
        elif isinstance(v, VecV):
            for i, x in enumerate(v.items):
                if isinstance(x, (Agg, NatV, VecV)):
                    self.drop(x, Ref(ref.obj, ref.path + (i,)) if ref is not None else None)
        elif isinstance(v, NatV):
            self.models.nat_drop(self, v, ref)

    def where(self):
        out = []
        for fr in self.stack[-4:]:
            out.append("%s (%s:%s)" % (fr.fn.p, fr.fn.span.rsplit(":", 1)[0], fr.line))
        return " > ".join(out)


FN_TRAITS = {"core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"}


class Frame:
    __slots__ = ("fn", "objs", "I", "line")

    def __init__(self, I, fn):
        self.fn, self.I, self.objs, self.line = fn, I, {}, 0

    def loc(self, n):
        o = self.objs.get(n)
        if o is None:
            self.I.n += 1
            o = "L%d" % self.I.n
            self.objs[n] = o
        return o


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


DEADLINE = [None]      # set per obligation by engine.py


def explore(prog, models, entry, limits=None, max_paths=3000, subst_depth=0):
    """Run entry(interp) on every abstract path; returns the list of Outcomes and whether exploration was complete."""
    outs = []
    complete = True
    work = [([], {})]
    seen = set()
    while work:
        dec, sub = work.pop()
        if len(outs) >= max_paths or DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            complete = False
            break
        I = Interp(prog, models, dec, sub, limits)
        o = Outcome()
        o.interp, o.detail, o.value = I, None, None
        try:
            o.value = entry(I)
            o.kind = "return"
        except Panic as e:
            o.kind, o.detail = "panic", "%s at %s" % (e, getattr(e, "loc", "?"))
        except UB as e:
            o.kind, o.detail = "ub", "%s at %s" % (e, getattr(e, "loc", "?"))
        except Unsupported as e:
            o.kind, o.detail = "unsupported", "%s at %s" % (e, getattr(e, "loc", "?"))
        except PathCut as e:
            o.kind, o.detail = "cut", str(e)
        except CaseSplit as e:
            for opt in e.options:
                s = dict(sub)
                s.update(opt)
                key = frozenset((k, v) for k, v in s.items())
                if key not in seen and len(s) <= subst_depth:
                    seen.add(key)
                    work.append(([], s))
            o.kind = "split"
            continue
        o.decisions, o.subst = list(I.decisions), sub
        for a in I.alts:
            work.append((a, sub))
        if o.kind == "cut" and o.detail in ("infeasible", "unreachable", "diverges"):
            continue
        outs.append(o)
    return outs, complete
