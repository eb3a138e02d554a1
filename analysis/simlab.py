"""Abstract simulator states and the gate semantics they are compared with."""
import itertools
from fractions import Fraction
import dom
import interp
import models
from dom import A, lift, ONE, ZERO, P_PI, P_SQRT2, cossin
from interp import Agg, VecV, Ref, Unsupported, CaseSplit

Q = "quantum_sparse_sim::QuantumSim::"
HALF = Fraction(1, 2)
RS2 = P_SQRT2 * HALF


class Lab:
    """Knows where the simulator keeps its amplitudes and its id map (found by type, not by name)."""

    def __init__(self, prog):
        self.P = prog
        new = self.fn("new")
        self.ty = new.locals[0]
        self.state_i = self.idmap_i = None
        for i, (fname, fty) in enumerate(fields_of(self.ty)):
            s = fty.s.replace(" ", "")
            if "BigUint" in s and "Complex" in s and s.startswith("alloc::vec::Vec<("):
                self.state_i = i
            elif s.endswith("IndexMap<usize,usize>"):
                self.idmap_i = i
        if self.state_i is None:
            raise Unsupported("no sparse state field in the simulator type")

    def fn(self, name):
        for p in (Q + name, "quantum_sparse_sim::exp::<impl quantum_sparse_sim::QuantumSim>::" + name):
            f = self.P.by_path.get(p)
            if f is not None:
                return f[0] if isinstance(f, list) else f
        raise KeyError(name)

    def has(self, name):
        try:
            self.fn(name)
            return True
        except KeyError:
            return False

    def new(self, I):
        return I.mkref(I.run_body(self.fn("new"), [models.some(models.NatV("Rng", ("given",)))]), "sim")

    def call(self, I, r, name, *args):
        return I.run_body(self.fn(name), [r] + [wrap(I, a) for a in args])

    def state(self, I, r):
        return {k: c for k, c in ((t.f[0], t.f[1]) for t in I.load(r).f[self.state_i].items)}

    def set_state(self, I, r, entries):
        """entries: list of (index by location, (re, im))"""
        I.store(r, I.load(r).with_field(self.state_i, VecV([models.tup(k, models.cplx(*c)) for k, c in entries])))

    def loc_of(self, I, r):
        """{id: location}"""
        m = I.load(r).f[self.idmap_i]
        out = {}
        v = [x for x in m.f if isinstance(x, VecV)][0]
        for i, o in enumerate(v.items):
            if o.name == "Some":
                out[i] = o.f[0]
        return out

    def get_state(self, I, r):
        """What get_state reports: {basis index in id order: (re, im)}, number of qubits, duplicate keys."""
        t = self.call(I, r, "get_state")
        vec, n = t.f
        return rows(vec), n


def rows(vec):
    out = []
    for e in vec.items:
        k = e.f[0]
        out.append((k, (lift(e.f[1].f[0], True), lift(e.f[1].f[1], True))))
    return out


def fields_of(ty):
    if ty.variants:
        return list(ty.variants[0][2])
    return [(str(i), t) for i, t in enumerate(ty.fields or ())]


def wrap(I, a):
    if isinstance(a, list):
        return I.mkref(VecV(a))
    return a


# -------------------------------------------------------------------- reference semantics
def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def csub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def conj(a):
    return (a[0], -a[1])


C0, C1, CI = (ZERO, ZERO), (ONE, ZERO), (ZERO, ONE)
CM1, CMI = (-ONE, ZERO), (ZERO, -ONE)


def re(x):
    return (lift(x, True), ZERO)


def im(x):
    return (ZERO, lift(x, True))


def expi(p):
    c, s = cossin(p)
    return (c, s)


def neg(a):
    return (-a[0], -a[1])


def matrix(g, *par):
    """The 2x2 matrix of a named gate (rows)."""
    if g == "x":
        return [[C0, C1], [C1, C0]]
    if g == "y":
        return [[C0, CMI], [CI, C0]]
    if g == "z":
        return [[C1, C0], [C0, CM1]]
    if g == "h":
        return [[re(RS2), re(RS2)], [re(RS2), re(-RS2)]]
    if g == "s":
        return [[C1, C0], [C0, CI]]
    if g == "sadj":
        return [[C1, C0], [C0, CMI]]
    if g == "t":
        return [[C1, C0], [C0, (RS2, RS2)]]
    if g == "tadj":
        return [[C1, C0], [C0, (RS2, -RS2)]]
    if g == "phase":
        return [[C1, C0], [C0, par[0]]]
    c, s = cossin(par[0] * HALF)
    if g == "rx":
        return [[re(c), im(-s)], [im(-s), re(c)]]
    if g == "ry":
        return [[re(c), re(-s)], [re(s), re(c)]]
    if g == "rz":
        return [[(c, -s), C0], [C0, (c, s)]]
    raise KeyError(g)


def apply2(vec, m, target, ctls=()):
    """vec: {index in id order (bit q = qubit q): amplitude}."""
    out = {}
    for k, v in vec.items():
        if all(k >> c & 1 for c in ctls):
            b = k >> target & 1
            for r in (0, 1):
                e = m[r][b]
                if e[0].d or e[1].d:
                    k2 = (k & ~(1 << target)) | (r << target)
                    out[k2] = cadd(out.get(k2, C0), cmul(e, v))
        else:
            out[k] = cadd(out.get(k, C0), v)
    return out


def apply_exp(vec, paulis, theta, targets, ctls=()):
    """exp(i theta P)"""
    c, s = cossin(theta)
    out = {}
    for k, v in vec.items():
        if not all(k >> q & 1 for q in ctls):
            out[k] = cadd(out.get(k, C0), v)
            continue
        out[k] = cadd(out.get(k, C0), cmul(re(c), v))
        k2, ph = k, im(s)
        for p, q in zip(paulis, targets):
            b = k2 >> q & 1
            if p == "X":
                k2 ^= 1 << q
            elif p == "Y":
                ph = cmul(ph, CMI if b else CI)
                k2 ^= 1 << q
            elif p == "Z" and b:
                ph = neg(ph)
        out[k2] = cadd(out.get(k2, C0), cmul(ph, v))
    return out


def permute(vec, f):
    return {f(k): v for k, v in vec.items()}


def swap_bits(k, a, b):
    x, y = k >> a & 1, k >> b & 1
    if x != y:
        k ^= (1 << a) | (1 << b)
    return k


PHASES = [C1, CM1, CI, CMI]


def czero(a):
    return dom.is_zero(a[0]) and dom.is_zero(a[1])


def ceq(a, b):
    return dom.same(a[0], b[0]) and dom.same(a[1], b[1])


def same_state(got, want, phase=True):
    """got, want: {index: amplitude}; equal up to a unit factor (phase=True) or exactly. None if equal, else a witness."""
    keys = sorted(set(got) | set(want))
    w = {k: want.get(k, C0) for k in keys}
    g = {k: got.get(k, C0) for k in keys}
    for ph in PHASES if phase else PHASES[:1]:
        if all(ceq(g[k], cmul(ph, w[k])) for k in keys):
            return None
    k0 = None
    if phase:
        for k in keys:
            if not czero(w[k]) and not czero(g[k]):
                k0 = k
                break
        if k0 is not None:
            bad = [k for k in keys if not ceq(cmul(g[k], w[k0]), cmul(w[k], g[k0]))]
            n1 = ZERO
            n2 = ZERO
            for k in keys:
                n1 = n1 + g[k][0] * g[k][0] + g[k][1] * g[k][1]
                n2 = n2 + w[k][0] * w[k][0] + w[k][1] * w[k][1]
            if not bad and dom.same(n1, n2):
                return None
    for k in keys:
        if not ceq(g[k], w[k]):
            return "basis state %s: computed %s, required %s" % (bin(k), show(g[k]), show(w[k]))
    return "states differ"


def show(c):
    s = "(%r) + i(%r)" % c
    return s if len(s) < 300 else s[:297] + "..."


# -------------------------------------------------------------------- deciding "nearly zero"
def solve_angles(p):
    """Substitutions that make p zero, for p built from one angle or one trigonometric factor."""
    if not p.d:
        return [{}]
    sp = dom.split_angle(p)
    if sp is not None and sp[0]:
        lin, pi = sp
        a, c = sorted(lin.items(), key=lambda t: t[0].id)[-1]
        rest = p - A_atom(a) * c
        return [{a: rest * dom._norm(Fraction(-1) / c)}]
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = []
        for at, e in m:
            if at.kind == "cos":            # cos(a/2)
                out += [{at.key: P_PI}, {at.key: -P_PI}]
            elif at.kind == "sin":
                out += [{at.key: ZERO}, {at.key: P_PI * 2}]
        return out
    return []


def A_atom(a):
    return dom.Poly({((a, 1),): 1})
