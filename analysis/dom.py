"""The numeric abstract domain: exact multivariate polynomials with trigonometric, root and opaque atoms.

A value is a finite sum  c * prod(atom^e)  with rational c. Atoms are interned; two values are equal in the domain iff
their normal forms are identical. Reductions applied: sqrt2^2 = 2, sin(x)^2 = 1 - cos(x)^2. Atoms of kind 'pow' stand
for a composite polynomial raised to a rational power (roots, reciprocals).
"""
from fractions import Fraction
import math

_atoms = {}
_alist = []


class Atom:
    __slots__ = ("id", "kind", "key")

    def __repr__(self):
        if self.kind in ("sym", "angle", "amp"):
            return str(self.key)
        if self.kind == "const":
            return str(self.key)
        if self.kind in ("cos", "sin"):
            return "%s(%s)" % (self.kind, self.key)
        return "%s%r" % (self.kind, self.key) if isinstance(self.key, tuple) else "%s(%r)" % (self.kind, self.key)


def atom(kind, key):
    a = _atoms.get((kind, key))
    if a is None:
        a = Atom()
        a.id, a.kind, a.key = len(_alist), kind, key
        _atoms[(kind, key)] = a
        _alist.append(a)
    return a


SQRT2 = atom("const", "sqrt2")
PI = atom("const", "pi")
INF = atom("const", "inf")
NAN = atom("const", "nan")


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("d", "_h", "flt")

    def __init__(self, d, flt=True):
        self.d = d
        self._h = None
        self.flt = flt

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m in sorted(self.d, key=lambda m: [(a.id, e) for a, e in m]):
            c = self.d[m]
            ms = "*".join(repr(a) if e == 1 else "%r^%s" % (a, e) for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out).replace("+ -", "- ")

    def atoms(self):
        return {a for m in self.d for a, _ in m}

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()}, self.flt)

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = _norm(n)
        return Poly(d, self.flt or o.flt)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return Poly({}, self.flt)
            return Poly({m: _norm(c * o) for m, c in self.d.items()}, self.flt)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                for m, c in _mmul(m1, m2):
                    n = d.get(m, 0) + c * c1 * c2
                    if n == 0:
                        d.pop(m, None)
                    else:
                        d[m] = _norm(n)
        return Poly(d, self.flt or o.flt)

    __rmul__ = __mul__


_mm = {}


def _mmul(m1, m2):
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    k = (m1, m2)
    r = _mm.get(k)
    if r is not None:
        return r
    e = {}
    for a, x in m1:
        e[a] = x
    for a, x in m2:
        e[a] = e.get(a, 0) + x
    coef = 1
    terms = None
    for a in list(e):
        x = e[a]
        if x == 0:
            del e[a]
        elif a is SQRT2:
            q, rr = divmod(x, 2)
            coef *= Fraction(2) ** int(q)
            if rr:
                e[a] = rr
            else:
                del e[a]
    base = [((), _norm(coef))]
    # sin^2 -> 1 - cos^2
    sins = [a for a in e if a.kind == "sin" and e[a] >= 2]
    pows = []
    for a in list(e):
        if a.kind == "pow" and e[a] == 1:
            pows.append(a.key)
            del e[a]
        elif a.kind == "abs" and e[a] in (2, 4, -2, -4) and isinstance(a.key, Poly) and len(a.key.d) == 1:
            pows.append(power(a.key, e[a]))        # |x|^2 is x^2
            del e[a]
    p = Poly({tuple(sorted(((a, x) for a, x in e.items() if a not in sins), key=lambda t: t[0].id)): _norm(coef)})
    for a in sins:
        x = e[a]
        c = atom("cos", a.key)
        one = Poly({(): 1, ((c, 2),): -1})
        for _ in range(int(x) // 2):
            p = p * one
        if x % 2:
            p = p * Poly({((a, 1),): 1})
    for q in pows:
        p = p * q
    r = tuple(p.d.items())
    if len(_mm) < 400000:
        _mm[k] = r
    return r


def lift(x, flt=None):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Poly({(): _norm(x)} if x != 0 else {}, bool(flt))
    raise TypeError("lift %r" % (x,))


def A(kind, key, flt=True):
    return Poly({((atom(kind, key), 1),): 1}, flt)


ZERO = Poly({}, True)
ONE = Poly({(): 1}, True)
P_SQRT2 = Poly({((SQRT2, 1),): 1})
P_PI = Poly({((PI, 1),): 1})
_KNOWN = []
for _n, _d in ((1, 1), (2, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 6), (1, 8), (3, 2), (4, 1), (1, 16)):
    _KNOWN.append((math.pi * _n / _d, P_PI * Fraction(_n, _d)))
_KNOWN.append((math.sqrt(2), P_SQRT2))
_KNOWN.append((math.sqrt(0.5), P_SQRT2 * Fraction(1, 2)))


def fconst(txt):
    """A floating constant of the program."""
    if txt in ("inf", "-inf"):
        p = A("const", "inf")
        return p if txt == "inf" else -p
    if txt in ("NaN", "nan", "-NaN"):
        return A("const", "nan")
    f = float(txt)
    for v, p in _KNOWN:
        if f == v:
            return p
        if f == -v:
            return -p
    return lift(Fraction(txt), True)


def approx(p, env=None):
    """A numeric value of p if all its atoms are constants (or given by env), else None."""
    tot = 0.0
    for m, c in p.d.items():
        v = float(c)
        for a, e in m:
            if a is SQRT2:
                x = math.sqrt(2)
            elif a is PI:
                x = math.pi
            elif a.kind == "pow":
                y = approx(a.key, env)
                if y is None or y < 0:
                    return None
                x = y
            elif env and a in env:
                x = env[a]
            elif env and a.kind in ("cos", "sin") and a.key in env:
                x = (math.cos if a.kind == "cos" else math.sin)(env[a.key] / 2)
            elif env and a.kind == "abs":
                x = approx(a.key, env)
                if x is None:
                    return None
                x = abs(x)
            else:
                return None
            v *= x ** float(e)
        tot += v
    return tot


def recip(p):
    return power(p, Fraction(-1))


def power(p, e):
    """p ** e for rational e."""
    e = Fraction(e)
    if not p.d:
        if e > 0:
            return ZERO
        return A("const", "inf")
    if e.denominator == 1 and e >= 0:
        r = ONE
        for _ in range(int(e)):
            r = r * p
        return r
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if e.denominator == 1 or (c > 0 and _is_square(c)):
            out = {}
            cc = Fraction(c) ** int(e) if e.denominator == 1 else _root(c) ** int(e * 2)
            ok = e.denominator in (1, 2)
            if ok:
                q = lift(_norm(cc), True)
                for a, x in m:
                    y = x * e
                    y = int(y) if y.denominator == 1 else y
                    if a is SQRT2:
                        if y.denominator != 1 if isinstance(y, Fraction) else False:
                            q = q * Poly({((atom("pow", P_SQRT2), Fraction(y)),): 1})
                            continue
                        k, r = divmod(y, 2)
                        q = q * _norm(Fraction(2) ** int(k))
                        if r:
                            q = q * P_SQRT2
                    elif e.denominator == 2 and a.kind not in ("pow",) and (x * e).denominator != 1:
                        q = q * Poly({((atom("pow", Poly({((a, 1),): 1})), x * e),): 1})
                    elif a.kind == "abs" and y in (2, 4, -2, -4) and isinstance(a.key, Poly) and len(a.key.d) == 1:
                        q = q * power(a.key, y)
                    elif e.denominator == 2 and x % 2 == 0 and a.kind not in ("pow",):
                        q = q * Poly({((atom("abs", Poly({((a, 1),): 1})), y),): 1})
                    else:
                        q = q * Poly({((a, y),): 1})
                return q
        if e == Fraction(1, 2) and not m and c > 0 and _is_square(c * 2):
            return P_SQRT2 * (_root(c * 2) * Fraction(1, 2))
        if e == Fraction(-1, 2) and not m and c > 0 and _is_square(c * 2):
            return P_SQRT2 * recip_c(_root(c * 2))
        if not m and e.denominator == 2 and c > 0:
            out, free = _squarefree(Fraction(c))
            k = (e.numerator - 1) // 2
            root = ONE if free == 1 else P_SQRT2 if free == 2 else Poly({((atom("pow", lift(free, True)), Fraction(1, 2)),): 1})
            return root * _norm(out * Fraction(c) ** k)
        if not m:
            return Poly({((atom("pow", p), _norm(e) if e.denominator == 1 else e),): 1})
    # normalise the content so that equal values get equal atoms
    lead = p.d[min(p.d, key=lambda m: [(a.id, x) for a, x in m])]
    if e.denominator == 1:
        scale = Fraction(lead)
    else:
        scale = abs(Fraction(lead))
    q = p * _norm(1 / scale)
    coef = power(lift(_norm(scale), True), e) if scale != 1 else ONE
    return coef * Poly({((atom("pow", q), _norm(e) if e.denominator == 1 else e),): 1})


def _squarefree(c):
    """sqrt(c) = out * sqrt(free) with free a square-free integer (up to trial division)."""
    n, out, k = c.numerator * c.denominator, Fraction(1, c.denominator), 2
    while k * k <= n and k < 10000:
        while n % (k * k) == 0:
            n //= k * k
            out *= k
        k += 1
    return out, n


def recip_c(c):
    return _norm(Fraction(1) / Fraction(c))


def _is_square(c):
    c = Fraction(c)
    return c >= 0 and math.isqrt(c.numerator) ** 2 == c.numerator and math.isqrt(c.denominator) ** 2 == c.denominator


def _root(c):
    c = Fraction(c)
    return Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))


def split_angle(p):
    """p as ({angle atom: rational}, rational multiple of pi), or None."""
    lin, pi = {}, Fraction(0)
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a is PI:
                pi = Fraction(c)
            elif a.kind in ("angle", "sym"):
                lin[a] = Fraction(c)
            else:
                return None
        else:
            return None
    return lin, pi


_EX = {0: (ONE, ZERO), 1: (P_SQRT2 * Fraction(1, 2), P_SQRT2 * Fraction(1, 2)), 2: (ZERO, ONE)}


def _cs_pi(k):
    """cos, sin of k * pi/4."""
    k %= 8
    c, s = _EX[k % 2 if k % 2 == 0 or True else 0] if k in (0, 1) else (None, None)
    q, r = divmod(k, 2)
    c, s = _EX[1] if r else _EX[0]
    for _ in range(q):
        c, s = -s, c
    return c, s


def cossin(p):
    p = lift(p, True)
    sp = split_angle(p)
    if sp is not None:
        lin, pi = sp
        if all((x * 2).denominator == 1 for x in lin.values()) and (pi * 4).denominator == 1:
            c, s = _cs_pi(int(pi * 4))
            for a, x in sorted(lin.items(), key=lambda t: t[0].id):
                n = int(x * 2)
                bc, bs = A("cos", a), A("sin", a)
                if n < 0:
                    bs, n = -bs, -n
                for _ in range(n):
                    c, s = c * bc - s * bs, s * bc + c * bs
            return c, s
    # canonical sign: cos even, sin odd
    if not p.d:
        return ONE, ZERO
    lead = p.d[min(p.d, key=lambda m: [(a.id, x) for a, x in m])]
    if lead < 0:
        return A("fn", ("cos", -p)), -A("fn", ("sin", -p))
    return A("fn", ("cos", p)), A("fn", ("sin", p))


class Cond:
    """A symbolic boolean: kind is 'lt0' / 'eq0' / 'near0' on a polynomial, 'atom' on an opaque key, 'and' / 'or'."""
    __slots__ = ("kind", "arg", "neg")

    def __init__(self, kind, arg, neg=False):
        self.kind, self.arg, self.neg = kind, arg, neg

    def negate(self):
        return Cond(self.kind, self.arg, not self.neg)

    def key(self):
        return (self.kind, self.arg)

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.kind, self.arg, self.neg) == (o.kind, o.arg, o.neg)

    def __hash__(self):
        return hash((self.kind, self.arg, self.neg))

    def __repr__(self):
        return ("!" if self.neg else "") + "%s(%r)" % (self.kind, self.arg)


def is_zero(p):
    """p is identically zero, after clearing reciprocals."""
    for _ in range(12):
        if not p.d:
            return True
        low = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low:
            return False
        for a, e in low.items():
            p = Poly({((a, -e),): 1}) * p if a.kind != "pow" or (-e).denominator != 1 or -e != int(-e) else _mulpow(p, a, int(-e))
    return not p.d


def _mulpow(p, a, k):
    d = {}
    for m, c in p.d.items():
        e = dict(m)
        x = e.pop(a, 0) + k
        if x < 0 or (isinstance(x, Fraction) and x.denominator != 1):
            e[a] = x
            extra = ONE
        else:
            extra = ONE
            for _ in range(int(x)):
                extra = extra * a.key
        t = Poly({tuple(sorted(e.items(), key=lambda t: t[0].id)): c}) * extra
        for mm, cc in t.d.items():
            n = d.get(mm, 0) + cc
            if n == 0:
                d.pop(mm, None)
            else:
                d[mm] = _norm(n)
    return Poly(d)


def same(p, q):
    p, q = lift(p), lift(q)
    return p == q or is_zero(p - q)


def substitute(p, env):
    """Replace atoms (of any kind, inside composite atoms too) by polynomials."""
    out = ZERO
    for m, c in p.d.items():
        t = lift(c, True)
        for a, e in m:
            if a in env:
                b = env[a]
            elif a.kind == "pow":
                b = substitute(a.key, env)
            elif a.kind in ("cos", "sin") and a.key in env:
                b = cossin(env[a.key] * Fraction(1, 2))[0 if a.kind == "cos" else 1]
            elif a.kind in ("fn", "abs"):
                k = a.key
                if a.kind == "abs":
                    b = A("abs", substitute(k, env))
                else:
                    b = A("fn", tuple(substitute(x, env) if isinstance(x, Poly) else x for x in k))
            else:
                b = Poly({((a, 1),): 1})
            t = t * (power(b, e) if e != 1 else b)
        out = out + t
    return out
