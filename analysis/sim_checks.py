"""Properties of the sparse-state simulator (C01-C05, C07-C09)."""
import itertools
import math
from fractions import Fraction
import dom
import interp
import models
from dom import A, lift, ONE, ZERO, P_PI
from engine import BAD, OK, UNK, MissingAnchor, Result, judge
from interp import Agg, CaseSplit, NatV, PathCut, Poly, Ref, StrV, Unsupported, VecV
from simlab import *

TA, TB, TC, TD, TG = (A("angle", x) for x in ("ta", "tb", "tc", "td", "tg"))
ONEQ = ["x", "y", "z", "h", "s", "sadj", "t", "tadj"]
ROT = ["rx", "ry", "rz"]
MC = ["mcx", "mcy", "mcz", "mch", "mcs", "mcsadj", "mct", "mctadj"]
MCROT = ["mcrx", "mcry", "mcrz"]
APIS = ONEQ + ROT + MC + MCROT + ["mcphase", "swap_qubit_ids", "apply", "exp", "mcexp", "measure", "joint_measure", "joint_probability",
                                  "qubit_is_zero", "force_collapse", "get_state", "dump", "release", "allocate"]


def lab(prog):
    L = Lab(prog)
    missing = [g for g in APIS if not L.has(g)]
    if missing:
        raise MissingAnchor("the simulator has no operation " + ", ".join(missing))
    return L


# ------------------------------------------------------------------ gates: how to call them, what they mean
def paulis(prog_pauli, s):
    names = [v[0] for v in prog_pauli.variants]
    return [Agg(prog_pauli, names.index(c), ()) for c in s]


def pauli_ty(L):
    f = L.fn("exp")
    t = f.locals[2]
    while t.elem is not None:
        t = t.elem
    return t


def umat(name, k):
    """A symbolic 2^k x 2^k matrix (entries are independent complex symbols)."""
    n = 1 << k
    return [[(A("amp", "%s%d%dr" % (name, r, c)), A("amp", "%s%d%di" % (name, r, c))) for c in range(n)] for r in range(n)]


def patterned(name, k, keep):
    """A symbolic matrix whose entries outside the pattern keep(row, column) are exactly zero."""
    return [[e if keep(r, c) else C0 for c, e in enumerate(row)] for r, row in enumerate(umat(name, k))]


def patterns(k, tier):
    """(tag, pattern of possibly nonzero entries), each the pattern of some unitary: permutations and Hessenberg forms."""
    n = 1 << k
    perms = itertools.permutations(range(n)) if k < 3 else (tuple((i * a + b) % n for i in range(n)) for a in (1, 3, 5) for b in range(n))
    for p in perms:
        yield "perm" + "".join(map(str, p)), lambda r, c, p=p: p[c] == r
    yield "upper-hessenberg", lambda r, c: r <= c + 1
    yield "lower-hessenberg", lambda r, c: c <= r + 1
    for j in range(k):
        yield "block%d" % j, lambda r, c, j=j: not (r ^ c) & ~((1 << j + 1) - 1)
        yield "corner%d" % j, lambda r, c, j=j: r == c if not (r >> j & 1 and c >> j & 1) else True


def invoke(L, I, r, g, V):
    """Call gate g = (name, ...) on the simulator; V maps symbolic parameters under the path's substitution."""
    n = g[0]
    if n in ("exp", "mcexp"):
        ctls, ps, th, ts = g[1:]
        pv = paulis(pauli_ty(L), ps)
        if n == "exp":
            return L.call(I, r, "exp", pv, V(th), list(ts))
        return L.call(I, r, "mcexp", list(ctls), pv, V(th), list(ts))
    if n == "apply":
        u, ts, cs = g[1:]
        m = NatV("Mat", tuple(tuple(models.cplx(V(a), V(b)) for a, b in row) for row in u))
        return L.call(I, r, "apply", I.mkref(m), list(ts), models.opt(I.mkref(VecV(cs)) if cs is not None else None))
    if n == "mcphase":
        return L.call(I, r, "mcphase", list(g[1]), models.cplx(V(g[2][0]), V(g[2][1])), g[3])
    args = []
    for a in g[1:]:
        if isinstance(a, Poly):
            args.append(V(a))
        elif isinstance(a, (list, tuple)):
            args.append(list(a))
        else:
            args.append(a)
    return L.call(I, r, n, *args)


def meaning(vec, g, V):
    n = g[0]
    if n in ONEQ:
        return apply2(vec, matrix(n), g[1])
    if n in ROT:
        return apply2(vec, matrix(n, V(g[1])), g[2])
    if n in MC:
        return apply2(vec, matrix(n[2:]), g[2], g[1])
    if n in MCROT:
        return apply2(vec, matrix(n[2:], V(g[2])), g[3], g[1])
    if n == "mcphase":
        return apply2(vec, matrix("phase", (V(g[2][0]), V(g[2][1]))), g[3], g[1])
    if n == "swap_qubit_ids":
        return permute(vec, lambda k: swap_bits(k, g[1], g[2]))
    if n in ("exp", "mcexp"):
        return apply_exp(vec, g[2], V(g[3]), g[4], g[1])
    if n == "apply":
        u, ts, cs = g[1:]
        out = {}
        for k, v in vec.items():
            if not all(k >> c & 1 for c in cs or ()):
                out[k] = cadd(out.get(k, C0), v)
                continue
            col = 0
            for t in ts:                      # the first target is the most significant index bit
                col = col * 2 + (k >> t & 1)
            for row in range(len(u)):
                k2 = k
                for i, t in enumerate(reversed(ts)):
                    k2 = (k2 & ~(1 << t)) | ((row >> i & 1) << t)
                e = (V(u[row][col][0]), V(u[row][col][1]))
                out[k2] = cadd(out.get(k2, C0), cmul(e, v))
        return out
    raise KeyError(n)


def gname(g):
    def f(x):
        if isinstance(x, Poly):
            return repr(x)
        if isinstance(x, (list, tuple)):
            if x and isinstance(x[0], (list, tuple)):
                return "U"
            return "[" + ",".join(f(y) for y in x) + "]"
        return str(x)
    return "%s(%s)" % (g[0], ",".join(f(x) for x in g[1:]))


def seqname(gs):
    return ";".join(gname(g) for g in gs) or "-"


# ------------------------------------------------------------------ abstract runs
def near_hook(fork_angles=False, fork_amps=False):
    def h(I, p):
        kinds = {a.kind for a in p.atoms()}
        amps = [a for a in p.atoms() if a.kind == "amp"]
        if amps:
            if not fork_amps:
                return False
            sols = solve_amp(p)
        else:
            if not fork_angles:
                return False
            sols = solve_angles(p)
        if not sols:
            return False
        if I.choose(2, ("near0", p)) == 0:
            return False
        raise CaseSplit(sols)
    return h


def solve_amp(p):
    """p = 0 solved for one amplitude it depends on linearly."""
    best = None
    for a in sorted((a for a in p.atoms() if a.kind == "amp"), key=lambda a: a.id):
        coef, rest, ok = ZERO, ZERO, True
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            if e == 0:
                rest = rest + Poly({m: c})
            elif e == 1:
                coef = coef + Poly({tuple(t for t in m if t[0] is not a): c})
            else:
                ok = False
        if ok and coef.d and not any(x.kind == "amp" for x in coef.atoms()):
            if best is None or len(coef.d) < best[1]:
                best = ({a: -rest * dom.recip(coef)}, len(coef.d))
    return [best[0]] if best else []


def valuer(I):
    env = dict(I.subst)

    def V(p):
        p = lift(p, True)
        for _ in range(4):
            if not env:
                break
            q = dom.substitute(p, env)
            if q == p:
                break
            p = q
        return p
    return V


def setup(L, I, n, perm=None, free=()):
    """A simulator with n qubits whose ids map to permuted locations; ids in free have been released."""
    r = L.new(I)
    for _ in range(n):
        L.call(I, r, "allocate")
    if perm:
        for a, b in perm:
            L.call(I, r, "swap_qubit_ids", a, b)
    for q in free:
        L.call(I, r, "release", q)
    return r


def generic(L, I, r, present=None, prefix="a", real=False):
    """Install a generic state; returns it indexed by qubit position in id order."""
    V = valuer(I)
    loc = L.loc_of(I, r)
    ids = sorted(loc)
    vec, entries = {}, []
    for k in (range(1 << len(ids)) if present is None else sorted(present)):
        if k >> len(ids):
            continue
        c = (V(A("amp", "%s%d" % (prefix, k))), ZERO if real else V(A("amp", "%s%di" % (prefix, k))))
        if not c[0].d and not c[1].d:
            continue
        lk = sum(1 << loc[q] for i, q in enumerate(ids) if k >> i & 1)
        entries.append((lk, c))
        vec[k] = c
    L.set_state(I, r, entries)
    return vec


def observed(L, I, r):
    return listed(*L.get_state(I, r))


def from_state(I, t):
    return listed(rows(t.f[0]), t.f[1])


def listed(got, n):
    """The reported amplitudes by basis state; the report lists each state once, in increasing order."""
    d = {}
    for k, c in got:
        if not isinstance(k, int):
            raise Unsupported("symbolic basis index")
        if k in d:
            return None, n, "basis state %s is listed twice" % bin(k)
        if d and k < max(d):
            return None, n, "basis state %s is listed after %s" % (bin(k), bin(max(d)))
        d[k] = c
    return d, n, None


def check_sequence(prog, n, perm, prefix, gate, present=None, near=(False, False), free=(), depth=2, phase=True, real=False, consts=None, twice=False, numeric=None):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, n, perm, free)
        V = valuer(I)
        vec = generic(L, I, r, present, real=real)
        pos = {q: i for i, q in enumerate(sorted(L.loc_of(I, r)))}
        for g in list(prefix) + ([gate] if gate else []):
            invoke(L, I, r, g, V)
            vec = meaning(vec, relabel(g, pos), V)
        got, cnt, dup = observed(L, I, r)
        if dup:
            return dup
        if cnt != n - len(free):
            return "state reports %s qubits instead of %d" % (cnt, n - len(free))
        d = same_state(got, vec, phase)
        if d is None and twice:
            got2, _, _ = observed(L, I, r)
            d = same_state(got2, got, False)
        return d

    def ok(o):
        if o.kind == "return":
            return o.value
        return "%s: %s" % (o.kind, o.detail)
    lim = {"near0": near_hook(*near)}
    if len(prefix) > 1000:
        lim["steps"] = 40000000
    if consts:
        lim["consts"] = consts
    if numeric:
        lim["numeric"] = numeric
    outs, comp = interp.explore(prog, models, entry, lim, max_paths=600, subst_depth=depth)
    return judge(outs, comp, ok)


def relabel(g, pos):
    """Rename qubit ids to positions (for states with released ids)."""
    if all(k == v for k, v in pos.items()):
        return g
    n = g[0]
    f = lambda q: pos[q]
    fl = lambda l: [pos[q] for q in l] if l is not None else None
    if n in ONEQ:
        return (n, f(g[1]))
    if n in ROT:
        return (n, g[1], f(g[2]))
    if n in MC:
        return (n, fl(g[1]), f(g[2]))
    if n in MCROT or n == "mcphase":
        return (n, fl(g[1]), g[2], f(g[3]))
    if n == "swap_qubit_ids":
        return (n, f(g[1]), f(g[2]))
    if n in ("exp", "mcexp"):
        return (n, fl(g[1]), g[2], g[3], fl(g[4]))
    if n == "apply":
        return (n, g[1], fl(g[2]), fl(g[3]))
    raise KeyError(n)


_L = {}


def lab_cache(prog):
    if id(prog) not in _L:
        _L[id(prog)] = lab(prog)
    return _L[id(prog)]


# ------------------------------------------------------------------ pending configurations, found by fixpoint
def signature(L, I, r):
    """The shape of everything but amplitudes, id map and generator: which pending work exists."""
    s = I.load(r)

    def sig(v):
        if isinstance(v, Agg):
            if v.ty is not None and v.ty.k == "enum":
                return (v.name,) + tuple(sig(x) for x in v.f)
            return tuple(sig(x) for x in v.f)
        if isinstance(v, VecV):
            it = list(v.items)
            if all(isinstance(x, Agg) and x.ty is not None and x.ty.path == "core::option::Option" for x in it):
                while it and it[-1].name == "None":
                    it.pop()
                return ("map",) + tuple(x.name for x in it)
            return ("seq", bool(it))
        if isinstance(v, NatV) and v.kind in ("Map", "Set"):
            return ("map", tuple(sorted(repr(k) for k in v.d)))
        if isinstance(v, bool) or isinstance(v, int):
            return v
        if isinstance(v, Poly):
            return "number"
        return type(v).__name__
    names = fields_of(L.ty)
    return tuple(sig(x) for i, x in enumerate(s.f) if i not in (L.state_i, L.idmap_i) and "rand" not in names[i][1].s and "StdRng" not in names[i][1].s)


def one_qubit_configs(prog):
    """Fixpoint over the single-qubit gates: every reachable pending configuration of one qubit, with a witness sequence."""
    L = lab_cache(prog)
    alphabet = [(g, 0) for g in ONEQ] + [("rx", TA, 0), ("ry", TB, 0), ("rz", TC, 0)]
    found = {}
    work = [()]
    first = True
    while work and len(found) < 24:
        w = work.pop(0)
        for g in ([None] if first else alphabet):
            seq = w if g is None else w + (g,)

            def entry(I):
                r = setup(L, I, 1)
                generic(L, I, r)
                V = valuer(I)
                for i, x in enumerate(seq):
                    if len(x) == 3:        # distinct angles at each step
                        x = (x[0], A("angle", "t%d" % i), x[2])
                    invoke(L, I, r, x, V)
                return signature(L, I, r)
            outs, _ = interp.explore(prog, models, entry, {"near0": near_hook()}, max_paths=20)
            for o in outs:
                if o.kind != "return":
                    raise Unsupported("%s while enumerating pending configurations: %s" % (o.kind, o.detail))
                if o.value not in found:
                    found[o.value] = seq
                    if len(seq) < 5:
                        work.append(seq)
        if first:
            first = False
            work = [()]
    return found


def on(seq, q, tag):
    """A witness sequence of one qubit moved to qubit q with its own angles."""
    out = []
    for i, x in enumerate(seq):
        if len(x) == 3:
            out.append((x[0], A("angle", "%s%d" % (tag, i)), q))
        else:
            out.append((x[0], q))
    return out


def pending_classes(prog):
    """Witness prefixes, without and with queued operations underneath."""
    if "cls" not in _L:
        f = one_qubit_configs(prog)
        _L["cls"] = sorted((s for s in f.values()), key=lambda s: (len(s), str(s)))
    return _L["cls"]


PHASE = (A("amp", "phr"), A("amp", "phi"))


def two_qubit_gates():
    c, t = 0, 1
    out = [(g, [c], t) for g in MC] + [(g, [c], TG, t) for g in MCROT]
    out += [("mcphase", [c], PHASE, t), ("swap_qubit_ids", c, t)]
    out += [("exp", [], "XZ", TG, [c, t]), ("exp", [], "YX", TG, [t, c]), ("exp", [], "ZZ", TG, [c, t]), ("mcexp", [c], "Y", TG, [t])]
    out += [("apply", umat("u", 1), [t], [c]), ("apply", umat("u", 1), [t], None)]
    return out


def three_qubit_gates():
    c, d, t = 0, 2, 1
    out = [(g, [c, d], t) for g in MC] + [(g, [c, d], TG, t) for g in MCROT] + [("mcphase", [c, d], PHASE, t)]
    out += [("mcexp", [c], "XY", TG, [d, t])]
    return out


def limit_to(k):
    """Replace the simulator's large named capacity constants by a small one: behaviour at the limit."""
    return lambda name, v: k if name.startswith("quantum_sparse_sim::") and isinstance(v, int) and v >= 1000 else None


QUEUES = ([("mcx", [0], 2)], [("mcx", [2], 0), ("y", 1)], [("mcx", [0, 1], 2), ("mcx", [1], 0)], [("mcz", [1], 2), ("s", 0)], [("mcy", [1], 0), ("mcx", [0], 2)])


LONG = [("x", 0), ("mcx", [0], 1), ("s", 1), ("y", 0), ("mcz", [1], 0), ("mcs", [0], 1), ("z", 1)]


def long_prefix(n):
    """n queueable gates on two qubits."""
    return [LONG[i % len(LONG)] for i in range(n)]


def obligations_C01(prog, tier):
    L = lab_cache(prog)
    cls = pending_classes(prog)
    obs = []

    def add(name, n, perm, prefix, gate, **kw):
        obs.append(("deferred:%s|%s" % (seqname(prefix), gname(gate)), "sparsesim QuantumSim::%s" % gate[0],
                    lambda: check_sequence(prog, n, perm, prefix, gate, **kw)))
    # queued controlled operations that share some of their operands
    lists = [([0, 1], 2), ([1, 0], 2), ([0, 3], 2), ([3, 1], 2), ([0, 1, 3], 2), ([0, 2], 1), ([3], 2), ([2, 1], 0)]
    queued = ["mcx", "mcy", "mcz", "mcs", "mcsadj", "mct", "mctadj"]

    def mk(g, i, a):
        c, t = lists[i]
        return (g, c, a, t) if g == "mcrz" else (g, c, t)
    for g1 in queued + ["mcrz"]:
        for g2 in [g1, {"mcs": "mcsadj", "mcsadj": "mcs", "mct": "mctadj", "mctadj": "mct"}.get(g1, "mcz" if g1 == "mcx" else "mcx")]:
            for i, j in itertools.product(range(len(lists)), repeat=2):
                if i == j and i:
                    continue
                add("", 4, [(0, 3)], [mk(g1, i, TA)], mk(g2, j, TB), present={15, 13, 11, 14, 7, 5, 0, 9}, real=True)
            for i in (0, 2, 4):
                add("", 4, [(0, 3)], [mk(g1, i, TA), mk("mcx", 5, TB)], mk(g2, i, TB), present={15, 13, 11, 14, 7, 5, 0, 9}, real=True)
    one = [(g, 0) for g in ONEQ] + [(g, TG, 0) for g in ROT]
    for s in cls:
        for under in ((), (("y", 0), ("t", 0))):
            for g in one:
                add("", 1, None, list(under) + on(s, 0, "p"), g, near=(True, False))
    for s in cls:
        if not s:
            continue
        for g in one:
            for g2 in one:
                if tier != "thorough" and g2[0] not in ("h", "ry", "x", "z"):
                    continue
                g2b = (g2[0], TD, 0) if len(g2) == 3 else g2
                add("", 1, None, on(s, 0, "p") + [g], g2b)
    for s in cls:
        for s2 in cls:
            for under in ((), (("mcx", [1], 0), ("mcs", [0], 1))):
                if under and tier != "thorough" and (len(s) + len(s2)) > 2:
                    continue
                for g in two_qubit_gates():
                    # exact case analysis on the angle of the controlled rotations only
                    near = (True, False) if g[0] in MCROT and len(s) + len(s2) <= 2 else (False, False)
                    add("", 2, [(0, 1)], list(under) + on(s, 0, "p") + on(s2, 1, "q"), g, near=near, real=len(s) + len(s2) > 2)
    c3 = cls if tier == "thorough" else [s for s in cls if len(s) <= 1]
    for s in c3:
        for s2 in c3:
            for s3 in c3:
                if tier == "thorough" and len(s) + len(s2) + len(s3) > 4:
                    continue
                for g in three_qubit_gates():
                    if tier != "thorough" and g[0] in ("mcsadj", "mct", "mctadj"):
                        continue
                    add("", 3, [(0, 2), (1, 2)], on(s, 0, "p") + on(s2, 1, "q") + on(s3, 2, "r"), g, real=True)
    # states with one or two amplitudes
    for s in cls:
        for s2 in cls:
            if len(s) + len(s2) > (4 if tier == "thorough" else 2):
                continue
            for under in ((), (("y", 0),), (("mcx", [1], 0),)):
                if under and len(s) + len(s2) > (2 if tier == "thorough" else 1):
                    continue
                for g in [(x, 0) for x in ONEQ] + [(x, TG, 0) for x in ROT] + two_qubit_gates():
                    for present in ({0}, {3}, {0, 3}) if tier == "thorough" else ({0}, {3}):
                        pre = list(under) + on(s, 0, "p") + on(s2, 1, "q")
                        obs.append(("deferred-on-%s:%s|%s" % ("+".join(map(bin, sorted(present))), seqname(pre), gname(g)), "sparsesim QuantumSim::%s" % g[0],
                                    lambda g=g, pre=pre, present=present: check_sequence(prog, 2, [(0, 1)], pre, g, present=present, real=True)))
    # queued operations that share some, all or none of their operands with what comes next
    for under in QUEUES:
        for a, b in itertools.permutations(range(3), 2):
            c = 3 - a - b
            gates = [("swap_qubit_ids", a, b), ("apply", umat("u", 1), [a], None), ("apply", umat("u", 1), [a], [b]), ("exp", [], "XY", TG, [a, b]), ("mcexp", [a], "Z", TG, [b]),
                     ("mcphase", [a], PHASE, b), ("mcx", [a], b), ("mcy", [a], b), ("mcrx", [a], TG, b), ("mcry", [a], TG, b), ("mcrz", [a], TG, b)]
            if b == (a + 1) % 3:
                gates += [("x", a), ("h", a), ("rx", TG, a), ("ry", TG, a), ("rz", TG, a), ("t", a), ("mcx", [a, b], c), ("mch", [a, b], c)]
            for g in gates:
                add("", 3, [(0, 2)], list(under), g, real=True)
            for more in ([("h", a), ("mcx", [a], b)], [("mcx", [c], a), ("h", b)], [("ry", TA, b), ("mcz", [c], b)]):
                add("", 3, [(0, 2)], list(under) + [("swap_qubit_ids", a, b)] + more, ("mcs", [a], c), real=True)
    # two queued operations in a row, and two of a kind with something else in between, on shared or separate operands
    kinds = ["x", "y", "z", "s", "sadj", "t", "tadj", "rz"]

    def qop(k, ctl, t, ang):
        if k == "rz":
            return ("mcrz", ctl, ang, t) if ctl else ("rz", ang, t)
        return ("mc" + k, ctl, t) if ctl else (k, t)
    t, a, b = 1, 0, 2
    for k in kinds:
        for k2 in kinds if tier == "thorough" else [k, "x", "y"] + {"s": ["sadj"], "sadj": ["s"], "t": ["tadj", "s"], "tadj": ["t"], "z": ["s", "rz"], "rz": ["t", "z"]}.get(k, []):
            for (c1, t1), (c2, t2) in (([], t), ([a], t)), (([a], t), ([], t)), (([a], t), ([b], t)), (([a], t), ([a, b], t)), (([a, b], t), ([b, a], t)), (([a], t), ([t], a)), (([], t), ([t], a)), (([a], t), ([a], t)):
                add("", 3, [(0, 2)], [qop(k, c1, t1, TA)], qop(k2, c2, t2, TB), real=True)
    mids = [("mcx", [t], a), ("mcz", [t], a), ("mcx", [a], t), ("mcy", [t], b), ("mcs", [a], t), ("y", t), ("z", t), ("s", t), ("h", t), ("h", a), ("swap_qubit_ids", t, a), ("mcrz", [t], TC, a), ("rx", TC, t)]
    for k in kinds:
        for k2 in {k, k + "adj" if k in "st" else k.replace("adj", "")}:
            for m in mids:
                for c in ([], [b]):
                    add("", 3, [(0, 2)], [qop(k, c, t, TA), m], qop(k2, c, t, TB), real=True)
    # the operation queue's capacity limit: every enqueueing gate at the limit
    for g in [(x, 0) for x in ONEQ] + [("rz", TG, 0)] + [(x, [1], 0) for x in MC] + [("mcrz", [1], TG, 0)]:
        for k in (1, 2):
            pre = [("x", 0), ("mcs", [0], 1), ("y", 1)]
            obs.append(("queue-limit-%d:%s" % (k, gname(g)), "sparsesim QuantumSim::enqueue_op",
                        lambda g=g, k=k, pre=pre: check_sequence(prog, 2, [(0, 1)], pre, g, consts=limit_to(k), real=True)))
    # long queues
    for k in (18, 35, 52, 70, 103, 130, 260, 515, 1030, 2050) + ((4100, 8200, 10001, 10005) if tier == "thorough" else (10003,)):
        for g in [("h", 0), ("x", 0), ("mcx", [1], 0)] if k < 1100 else [("x", 0)]:
            obs.append(("queue-length-%d:%s" % (k, gname(g)), "sparsesim QuantumSim::enqueue_op",
                        lambda g=g, k=k: check_sequence(prog, 2, [(0, 1)], long_prefix(k), g, present=(0, 1, 2, 3) if k < 5000 else (1, 2), real=True)))
    obs.sort(key=lambda o: not o[0].startswith("queue-length-10"))      # the longest first
    return obs


def sized(tiny, present, at, angle=0.7):
    """Magnitudes for the otherwise symbolic amplitudes a<k> and the angle tg: branch decisions are taken for these."""
    num = {atom_of(TG): angle}
    rest = [k for k in sorted(present) if k != at]
    for k in sorted(present):
        num[atom_of(A("amp", "a%d" % k))] = tiny if k == at else math.sqrt((1 - tiny * tiny) * (rest.index(k) + 1) / (len(rest) * (len(rest) + 1) // 2))
    return num


def atom_of(p):
    (m, _), = p.d.items()
    return m[0][0]


# ------------------------------------------------------------------ C03: each gate is the matrix its name says
def subsets(n, limit=None):
    full = range(1 << n)
    out = []
    for r in range(1, (1 << n) + 1):
        out += [set(c) for c in itertools.combinations(full, r)]
    return out if limit is None else [s for s in out if limit(s)]


def obligations_C03(prog, tier):
    L = lab_cache(prog)
    obs = []

    def add(n, perm, gate, present, near, depth, tag=""):
        name = "kernel%s:%s|%s" % (tag, gname(gate), "all" if present is None else "+".join(bin(x)[2:] for x in sorted(present)))
        obs.append((name, "sparsesim QuantumSim::%s" % gate[0],
                    lambda: check_sequence(prog, n, perm, (), gate, present, near, depth=depth)))
    one = [(g, 0) for g in ONEQ] + [(g, TG, 0) for g in ROT]
    one += [(g, [], 0) for g in MC] + [(g, [], TG, 0) for g in MCROT] + [("mcphase", [], PHASE, 0)]
    one += [("exp", [], p, TG, [0]) for p in "IXYZ"] + [("mcexp", [], p, TG, [0]) for p in "XYZ"] + [("apply", umat("u", 1), [0], None)]
    for g in one:
        for s in subsets(1):
            add(1, None, g, s, (True, g[0] != "apply"), 4)
    two = [("swap_qubit_ids", 0, 1), ("apply", umat("u", 2), [0, 1], None), ("apply", umat("u", 2), [1, 0], None)]
    two += [("exp", [], a + b, TG, [0, 1]) for a in "IXYZ" for b in "IXYZ"] + [("exp", [], a + b, TG, [1, 0]) for a, b in ("XZ", "YZ", "XY")]
    for g in two:
        for s in subsets(2, lambda s: len(s) in (1, 2, 4) if tier != "thorough" else True):
            add(2, [(0, 1)], g, s, (True, False), 2)
    for g in [("exp", [], "".join(p), TG, [0, 1]) for p in itertools.product("IXYZ", repeat=2)]:
        if set(g[2]) & set("XY"):
            add(2, None, g, None, (False, True), 2, "-cancel")
    three = [("exp", [], "".join(p), TG, [2, 0, 1]) for p in itertools.product("XYZ", repeat=3)] + [("exp", [], "IYX", TG, [0, 1, 2]), ("exp", [], "ZIY", TG, [0, 1, 2])]
    three += [("apply", umat("u", 2), [2, 0], None), ("apply", umat("u", 2), [0, 2], None), ("apply", umat("u", 1), [1], None)]
    three += [("apply", umat("u", 2), [1, 2], [0]), ("apply", umat("u", 1), [1], [2, 0])]
    if tier == "thorough":
        three += [("apply", umat("u", 3), p, None) for p in ([0, 1, 2], [2, 1, 0], [1, 2, 0])]
    for g in three:
        for s in ([None, {0, 3, 5}, {1, 6}, {7}] if tier == "thorough" else [None, {0, 3, 5}]):
            add(3, [(0, 2), (1, 2)], g, s, (False, False), 2)
    for n, at in wide_cases(tier):
        a, b, c = at
        for g in [(x, b) for x in ONEQ] + [(x, TG, b) for x in ROT] + [("swap_qubit_ids", b, c), ("apply", umat("u", 1), [b], None), ("apply", umat("u", 2), [c, b], None),
                                                                     ("exp", [], "X", TG, [b]), ("exp", [], "YZX", TG, [c, a, b])]:
            obs.append(("wide:%d|%s" % (n, gname(g)), "sparsesim QuantumSim::" + g[0], lambda n=n, at=at, g=g: wide_sequence(prog, n, at, (), g)))
    # matrices with zeros in every arrangement
    for k, ts in ((1, [0]), (2, [0, 1]), (2, [1, 0])) + (((3, [0, 1, 2]), (3, [2, 0, 1])) if tier == "thorough" else ()):
        for tag, keep in patterns(k, tier):
            for s in ([None] + [{x} for x in range(1 << k)] if k < 3 else [None, {1}, {3, 6}]):
                obs.append(("zeros:%s|apply(%s)|%s" % (tag, ts, "all" if s is None else "+".join(bin(x)[2:] for x in sorted(s))), "sparsesim QuantumSim::apply",
                            lambda k=k, ts=ts, keep=keep, s=s: check_sequence(prog, k, [(0, k - 1)] if k > 1 else None, (), ("apply", patterned("u", k, keep), ts, None), s)))
    # exponentials of longer Pauli strings
    for k in (4, 5, 6):
        for i, w in enumerate(("XYZXZY", "ZZZZZZ", "YIXIYI", "IIIIIX", "YYYYYY", "XIIIIZ", "ZXYXYX")):
            for s in ({0, 5}, {(1 << k) - 1, 2}):
                obs.append(("long:%d|%s|%s" % (k, w[-k:], sorted(s)), "sparsesim QuantumSim::exp",
                            lambda k=k, w=w, s=s: check_sequence(prog, k, [(0, k - 1)], (), ("exp", [], w[-k:], TG, list(range(k))[::-1]), present=s)))
    # amplitudes and angles that are small but not zero: nothing is dropped or rounded away
    gs = [(x, 0) for x in ONEQ] + [(x, TG, 0) for x in ROT] + [("exp", [], w, TG, [0, 1]) for w in ("XI", "ZI", "XX", "YX", "ZZ", "XZ")] + [("swap_qubit_ids", 0, 1), ("apply", umat("u", 1), [0], None)]
    gs += [("mcrx", [1], TG, 0), ("mcry", [1], TG, 0), ("mcrz", [1], TG, 0), ("mch", [1], 0), ("mcx", [1], 0)]
    for g in gs:
        u = {atom_of(x): v for x, v in zip([y for row in (g[1] if g[0] == "apply" else []) for z in row for y in z if len(y.d) == 1], (0.6, 0.2, 0.3, -0.4, -0.5, 0.1, 0.35, 0.7))}
        cases = [(7e-9, {0, 1}, 1, 0.7), (-4e-9, {0, 3}, 0, 2.5), (5e-9, {0, 1, 2, 3}, 2, 1.1)]
        if g[0] in ROT or g[0] in ("exp", "mcrx", "mcry", "mcrz"):
            cases += [(1, s, None, th) for s in ({0}, {3}, {0, 1, 2, 3}) for th in (8e-9, -8e-9, math.pi - 8e-9, math.pi + 8e-9, 2 * math.pi - 8e-9, 8e-5, -math.pi + 3e-7)]
        for tiny, s, at, th in cases:
            if at is None:
                num = dict(zip([atom_of(A("amp", "a%d" % k)) for k in sorted(s)], (0.5, 0.6, 0.33, math.sqrt(1 - 0.25 - 0.36 - 0.33 ** 2)) if len(s) > 1 else (1.0,)))
                num[atom_of(TG)] = th
            else:
                num = sized(tiny, s, at, th)
            num.update(u)
            obs.append(("small:%s|%s|%s" % (gname(g), "+".join(bin(x)[2:] for x in sorted(s)), "angle %g" % th if at is None else "amplitude %g at %s" % (tiny, bin(at)[2:])), "sparsesim QuantumSim::" + g[0],
                        lambda g=g, s=s, num=num: check_sequence(prog, 2, [(0, 1)], (), g, s, real=True, numeric=num)))
    # gate / inverse pairs compose to the identity
    inv = [("s", "sadj"), ("t", "tadj"), ("sadj", "s"), ("tadj", "t"), ("x", "x"), ("y", "y"), ("z", "z"), ("h", "h")]
    for a, b in inv:
        obs.append(("inverse:%s,%s" % (a, b), "sparsesim QuantumSim::" + a,
                    lambda a=a, b=b: check_identity(prog, [(a, 0), (b, 0)])))
    for g in ROT:
        obs.append(("inverse:%s" % g, "sparsesim QuantumSim::" + g, lambda g=g: check_identity(prog, [(g, TG, 0), (g, -TG, 0)])))
        obs.append(("additive:%s" % g, "sparsesim QuantumSim::" + g, lambda g=g: check_sequence(prog, 1, None, [(g, TA, 0)], (g, TB, 0), near=(True, False))))
    return obs


def check_identity(prog, seq):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, 1)
        vec = generic(L, I, r)
        V = valuer(I)
        for g in seq:
            invoke(L, I, r, g, V)
        got, _, dup = observed(L, I, r)
        return dup or same_state(got, vec, True)
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook(True, False)}, subst_depth=2)
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else "%s: %s" % (o.kind, o.detail))


# ------------------------------------------------------------------ C04: controls
def obligations_C04(prog, tier):
    obs = []
    t = 1
    orders = {1: [[0]], 2: [[0, 2], [2, 0]], 3: [[0, 2, 3], [3, 2, 0]]}
    perms = {1: [(0, 1)], 2: [(0, 2), (1, 2)], 3: [(0, 3), (1, 2)]}
    for nc in (1, 2, 3):
        for ctl in orders[nc]:
            gates = [(g, ctl, t) for g in MC] + [(g, ctl, TG, t) for g in MCROT] + [("mcphase", ctl, PHASE, t)]
            gates += [("mcexp", ctl, p, TG, [t]) for p in "XYZI"] + [("apply", umat("u", 1), [t], ctl)]
            for g in gates:
                near = (nc <= 2, False)
                obs.append(("controls-%d:%s" % (nc, gname(g)), "sparsesim QuantumSim::" + g[0],
                            lambda g=g, nc=nc, near=near: check_sequence(prog, nc + 1, perms[nc], (), g, near=near, depth=2, real=nc == 3)))
                if nc < 3 or tier == "thorough":
                    for s in ({0}, {1 << t}, {(1 << nc + 1) - 1}, {(1 << nc + 1) - 1 - (1 << t)}, {0, (1 << nc + 1) - 1}):
                        obs.append(("controls-%d:%s|%s" % (nc, gname(g), "+".join(map(bin, sorted(s)))), "sparsesim QuantumSim::" + g[0],
                                    lambda g=g, nc=nc, s=s: check_sequence(prog, nc + 1, perms[nc], (), g, present=s)))
    for n, at in wide_cases(tier):
        for ctl, t2 in (([at[1]], at[0]), ([at[0]], at[1]), ([at[2], at[0]], at[1]), ([at[1], at[2]], at[0])):
            gates = [(g, ctl, t2) for g in MC] + [(g, ctl, TG, t2) for g in MCROT] + [("mcphase", ctl, PHASE, t2)]
            gates += [("mcexp", ctl, p, TG, [t2]) for p in "XYZ"] + [("apply", umat("u", 1), [t2], ctl)]
            for g in gates:
                obs.append(("wide:%d|%s" % (n, gname(g)), "sparsesim QuantumSim::" + g[0],
                            lambda n=n, at=at, g=g: wide_sequence(prog, n, at, (), g, basis=(0, 3, 5, 6, 7))))
    # more controls than any table of cases would list
    for nc in ((4, 5, 6) if tier != "thorough" else (4, 5, 6, 7, 8)):
        ctl = [q for q in range(nc + 1) if q != 1]
        for cs in (ctl, ctl[::-1]):
            full = (1 << nc + 1) - 1
            gates = [(g, cs, t) for g in MC] + [(g, cs, TG, t) for g in MCROT] + [("mcphase", cs, PHASE, t)]
            gates += [("mcexp", cs, p, TG, [t]) for p in "XYZI"] + [("mcexp", cs[1:], "XY", TG, [t, cs[0]]), ("apply", umat("u", 1), [t], cs)]
            for g in gates:
                for s in ({full}, {full - 2}, {full, full - 1, full - 2, 0}, {full - 1, full - (1 << nc), full - 4, 2}):
                    obs.append(("controls-%d:%s|%s" % (nc, gname(g), "+".join(map(bin, sorted(s)))), "sparsesim QuantumSim::" + g[0],
                                lambda g=g, nc=nc, s=s: check_sequence(prog, nc + 1, [(0, nc)], (), g, present=s)))
    # operations pending on the target or on one of many controls
    for nc in (2, 3, 4):
        ctl = [q for q in range(nc + 1) if q != 1]
        full = (1 << nc + 1) - 1
        for s in pending_classes(prog):
            if not s or len(s) > (2 if tier != "thorough" else 9):
                continue
            for q in (t, ctl[0], ctl[1], ctl[-1])[:None if nc > 2 else 3]:
                for g in [(x, ctl, t) for x in MC] + [(x, ctl, TG, t) for x in MCROT] + [("mcphase", ctl, PHASE, t), ("mcexp", ctl, "Y", TG, [t]), ("apply", umat("u", 1), [t], ctl)]:
                    obs.append(("pending-%d:%s|%s" % (nc, seqname(on(s, q, "p")), gname(g)), "sparsesim QuantumSim::" + g[0],
                                lambda g=g, s=s, q=q, nc=nc, full=full: check_sequence(prog, nc + 1, [(0, nc)], on(s, q, "p"), g,
                                                                                      present={full, full - 2, full - 1, full - (1 << nc), full - 4 - 2} | ({full - 4 - 8} if nc > 2 else set()), real=True)))
    # operations pending on two or more of target and controls at once: every pair of positions
    for nc in (3,) if tier != "thorough" else (3, 4):
        ctl = [q for q in range(nc + 1) if q != 1]
        full = (1 << nc + 1) - 1
        short = [s for s in pending_classes(prog) if len(s) == 1]
        G = [(x, ctl, t) for x in MC] + [(x, ctl, TG, t) for x in MCROT] + [("mcphase", ctl, PHASE, t), ("mcexp", ctl, "X", TG, [t])]
        pend = [[(q, s), (q2, s2)] for q, q2 in itertools.combinations([t] + ctl, 2) for s in short for s2 in short]
        pend += [[(q, s) for q in c] for c in itertools.combinations([t] + ctl, 3) for s in short]
        for ps in pend:
            pre = [x for i, (q, s) in enumerate(ps) for x in on(s, q, "pqr"[i])]
            for g in G:
                obs.append(("pending-several-%d:%s|%s" % (nc, seqname(pre), gname(g)), "sparsesim QuantumSim::" + g[0],
                            lambda g=g, pre=pre, nc=nc, full=full: check_sequence(prog, nc + 1, [(0, nc)], pre, g, present={full, 5 % (full + 1), full - 1}, real=True)))
    # several controls among more qubits than the gate uses
    for n, cs, tt in ((6, [0, 2, 5], 3), (6, [5, 3, 1], 0), (7, [6, 0, 4, 2], 3), (5, [4, 1], 2)):
        full = sum(1 << c for c in cs)
        rest = (1 << n) - 1 - full - (1 << tt)
        gates = [(g, cs, tt) for g in MC] + [(g, cs, TG, tt) for g in MCROT] + [("mcphase", cs, PHASE, tt)]
        gates += [("mcexp", cs, p, TG, [tt]) for p in "XYZI"] + [("mcexp", cs[:-1], "XY", TG, [tt, cs[-1]]), ("apply", umat("u", 1), [tt], cs), ("apply", umat("u", 2), [tt, cs[-1]], cs[:-1])]
        for g in gates:
            for perm in ([(0, n - 1)], None):
                for s in ({full, full | rest, full - (1 << cs[-1]) + (1 << tt) | rest}, {rest, full - (1 << cs[0]) | rest, full | 1 << tt | rest & -rest}):
                    obs.append(("among-%d:%s|%s|%s" % (n, gname(g), "in order" if perm is None else "permuted", "+".join(map(bin, sorted(s)))), "sparsesim QuantumSim::" + g[0],
                                lambda g=g, n=n, s=s, perm=perm: check_sequence(prog, n, perm, (), g, present=s, real=True)))
    # a controlled gate acts only on its own operands: a bystander in any pending state
    for s in pending_classes(prog):
        for g in [(x, [0], t) for x in MC] + [(x, [0], TG, t) for x in MCROT]:
            obs.append(("bystander:%s|%s" % (seqname(on(s, 2, "p")), gname(g)), "sparsesim QuantumSim::" + g[0],
                        lambda g=g, s=s: check_sequence(prog, 3, [(0, 2)], on(s, 2, "p"), g, real=True)))
    return obs


# ------------------------------------------------------------------ measurement semantics
def first_amp(vec):
    for k in sorted(vec):
        for x in vec[k]:
            for a in x.atoms():
                if a.kind == "amp":
                    return a
    return None


class Norm:
    """Rewrites polynomials modulo  sum |amplitude|^2 = 1  (solved for one squared amplitude)."""

    def __init__(self, vec):
        tot = ZERO
        for c in vec.values():
            tot = tot + c[0] * c[0] + c[1] * c[1]
        self.a = None
        for m, c in sorted(tot.d.items(), key=lambda t: [(a.id, e) for a, e in t[0]]):
            if len(m) == 1 and m[0][1] == 2 and m[0][0].kind == "amp" and c == 1:
                self.a = m[0][0]
                self.sq = ONE - (tot - Poly({m: c}))
                break

    def __call__(self, p):
        if self.a is None:
            return p
        for _ in range(6):
            q = self.step(p)
            if q == p:
                return q
            p = q
        return p

    def step(self, p):
        out = ZERO
        for m, c in p.d.items():
            t = lift(c, True)
            for a, e in m:
                if a is self.a and isinstance(e, int) and e >= 2:
                    t = t * self.sq * (Poly({((a, e - 2),): 1}) if e > 2 else ONE)
                elif a.kind == "pow":
                    t = t * dom.power(self(a.key), e)
                else:
                    t = t * Poly({((a, e),): 1})
            out = out + t
        return out

    def same(self, p, q):
        d = self(lift(p, True) - lift(q, True))
        if not d.d or dom.is_zero(d):
            return True
        return not self(clear(d)).d


def clear(p):
    """Multiply away negative powers."""
    for _ in range(10):
        low = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low:
            return p
        for a, e in low.items():
            n = -e
            if a.kind == "pow" and n == int(n):
                p = dom._mulpow(p, a, int(n))
            else:
                p = Poly({((a, n),): 1}) * p
    return p


def prob_odd(vec, qs):
    p = ZERO
    for k, c in vec.items():
        if sum(k >> q & 1 for q in qs) & 1:
            p = p + c[0] * c[0] + c[1] * c[1]
    return p


def prob_even(vec, qs):
    p = ZERO
    for k, c in vec.items():
        if not sum(k >> q & 1 for q in qs) & 1:
            p = p + c[0] * c[0] + c[1] * c[1]
    return p


def project(vec, qs, res):
    return {k: c for k, c in vec.items() if (sum(k >> q & 1 for q in qs) & 1) == int(res)}


def same_collapsed(N, got, want, p):
    """got = want / sqrt(p), up to a unit factor from PHASES, modulo normalisation."""
    s = dom.power(N(p), Fraction(-1, 2)) if not N(p).is_const() or N(p).const() > 0 else ONE
    keys = sorted(set(got) | set(want))
    for ph in PHASES:
        if all(N.same(got.get(k, C0)[j], cmul(ph, want.get(k, C0))[j] * s) for k in keys for j in (0, 1)):
            return None
    # general unit factor: compare ratios and the total weight
    k0 = next((k for k in keys if not czero(want.get(k, C0)) and not czero(got.get(k, C0))), None)
    if k0 is not None:
        ok = all(N.same(cmul(got.get(k, C0), want[k0])[j], cmul(want.get(k, C0), got[k0])[j]) for k in keys for j in (0, 1))
        tot = ZERO
        for k in keys:
            c = got.get(k, C0)
            tot = tot + c[0] * c[0] + c[1] * c[1]
        if ok and N.same(tot, ONE):
            return None
        if ok:
            return "the collapsed state is not normalised: total weight %r" % N(tot)
    for k in keys:
        g, w = got.get(k, C0), want.get(k, C0)
        if not (N.same(g[0], w[0] * s) and N.same(g[1], w[1] * s)):
            return "after the measurement basis state %s has amplitude %s, required (%s)/sqrt(%r)" % (bin(k), show(g), show(w), N(p))
    return None


def draw_constraint(I, N, p1, p0, res, since=0):
    """The outcome must be decided by one uniform draw r: true iff r < p1 (or the mirrored test against p0)."""
    cons = []
    for base, (lo, hi, ne) in I.bounds.items():
        u = [a for a in base.atoms() if a.kind == "unit"]
        if not u:
            continue
        if len(u) != 1:
            return "the outcome depends on more than one random draw"
        alpha = base.d.get(((u[0], 1),))
        if alpha is None or sum(1 for m in base.d if any(a is u[0] for a, _ in m)) != 1:
            return "the outcome is not decided by comparing a uniform draw with a probability"
        rest = base - Poly({((u[0], 1),): alpha})
        inv = dom._norm(Fraction(1) / alpha)
        for bnd, is_hi in ((lo, False), (hi, True)):
            if bnd is None:
                continue
            t = (lift(bnd[0], True) - rest) * inv
            up = is_hi == (alpha > 0)
            if t.is_const() and ((up and t.const() >= 1) or (not up and t.const() <= 0)) and not (N.same(t, p1) or N.same(t, p0)):
                continue
            cons.append((up, bnd[1], t, u[0]))
    return cons


def infeasible(I, N):
    """The path needs a draw outside [0, 1): possible only for a state that is not normalised."""
    for base, (lo, hi, ne) in I.bounds.items():
        u = [a for a in base.atoms() if a.kind == "unit"]
        if len(u) != 1 or ((u[0], 1),) not in base.d:
            continue
        alpha = base.d[((u[0], 1),)]
        rest = base - Poly({((u[0], 1),): alpha})
        if any(a is u[0] for a in rest.atoms()):
            continue
        inv = dom._norm(Fraction(1) / alpha)
        for bnd, is_hi in ((lo, False), (hi, True)):
            if bnd is None:
                continue
            t = N((lift(bnd[0], True) - rest) * inv)
            if not t.is_const():
                continue
            if is_hi == (alpha > 0):
                if t.const() < 0 or (t.const() == 0 and bnd[1]):
                    return True
            elif t.const() >= 1:
                return True
    return False


def check_outcome(I, N, p1, p0, res):
    """None if the path's constraint on the random draw is the right one for this outcome."""
    q1, q0 = N(p1), N(p0)
    cons = draw_constraint(I, N, p1, p0, res)
    if isinstance(cons, str):
        return cons
    pr = q1 if res else q0
    if not cons:
        if pr.is_const() and pr.const() == 1:
            return None
        if pr.is_const() and pr.const() == 0:
            return "outcome %s has probability 0 but is returned" % res
        return "the outcome does not depend on the random draw although its probability is %r" % pr
    for up, strict, t, u in cons:
        good = False
        if res:
            good = (up and strict and N.same(t, p1)) or (not up and not strict and N.same(t, p0))
        else:
            good = (up and strict and N.same(t, p0)) or (not up and not strict and N.same(t, p1))
        if not good:
            return "outcome %s is returned when the draw is %s%s %r, but that outcome has probability %r" % (
                res, "<" if up else ">", "" if strict else "=", N(t), pr)
    return None


def basis_vec(k, n):
    return {k: (ONE, ZERO)}


def install(L, I, r, vec):
    loc = L.loc_of(I, r)
    ids = sorted(loc)
    L.set_state(I, r, [(sum(1 << loc[q] for i, q in enumerate(ids) if k >> i & 1), c) for k, c in vec.items()])
    return dict(vec)


def check_observer(prog, n, perm, prefix, obs, present=None, basis=None, real=True, free=(), numeric=None):
    """Run prefix, then the observer, on a normalised state; compare value, outcome condition and the state left behind."""
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, n, perm, free)
        V = valuer(I)
        vec = install(L, I, r, basis_vec(basis, n)) if basis is not None else generic(L, I, r, present, real=real)
        N = Norm(vec)
        pos = {q: i for i, q in enumerate(sorted(L.loc_of(I, r)))}
        for g in prefix:
            invoke(L, I, r, g, V)
            vec = meaning(vec, relabel(g, pos), V)
        vec = {k: c for k, c in vec.items() if not (czero(c))}
        name = obs[0]
        I.trace = [t for t in I.trace if t[0] not in ("random", "entropy")]
        if name in ("joint_probability", "qubit_is_zero"):
            qs = list(obs[1]) if name == "joint_probability" else [obs[1]]
            p1 = prob_odd(vec, [pos[q] for q in qs])
            if name == "joint_probability":
                v = L.call(I, r, name, qs)
                if not N.same(v, p1):
                    return "probability of odd parity of %s is %r, computed %r" % (qs, N(p1), N(lift(v, True)))
            else:
                v = I.truth(L.call(I, r, name, obs[1]))
                q1 = N(p1)
                if q1.is_const() and v != (q1.const() == 0):
                    return "is-zero reports %s where the probability of one is %r" % (v, q1)
                if v and not q1.is_const():
                    return "is-zero is true although the probability of one is %r" % q1
            d, _, dup = observed(L, I, r)
            return dup or same_state(d, vec, True)
        if name in ("measure", "joint_measure"):
            qs = list(obs[1]) if name == "joint_measure" else [obs[1]]
            ps = [pos[q] for q in qs]
            v = I.truth(L.call(I, r, name, qs if name == "joint_measure" else obs[1]))
            p1, p0 = prob_odd(vec, ps), prob_even(vec, ps)
            e = check_outcome(I, N, p1, p0, v)
            if e:
                return e
            k = sum(1 for t in I.trace if t[0] == "random")
            if k != 1:
                return "%d random draws for one measurement" % k
            again = L.call(I, r, "joint_probability", qs)
            if not N.same(again, ONE if v else ZERO):
                return "after measuring %s the probability of one is %r" % (v, N(lift(again, True)))
            d, _, dup = observed(L, I, r)
            return dup or same_collapsed(N, d, project(vec, ps, v), p1 if v else p0)
        if name == "force_collapse":
            val, q = obs[1], obs[2]
            v = L.call(I, r, name, val, q)
            p1, p0 = prob_odd(vec, [pos[q]]), prob_even(vec, [pos[q]])
            p = p1 if val else p0
            if not N.same(v, p):
                return "probability of %s is %r, reported %r" % (val, N(p), N(lift(v, True)))
            if any(t[0] == "random" for t in I.trace):
                return "a forced collapse draws a random number"
            d, _, dup = observed(L, I, r)
            if dup:
                return dup
            if N(p).is_const() and N(p).const() == 0:
                return same_state(d, vec, True)
            return same_collapsed(N, d, project(vec, [pos[q]], val), p)
        if name == "dump":
            t = L.call(I, r, "dump")
            e = same_dump(t, vec)
            if e:
                return e
            d, _, dup = observed(L, I, r)
            return dup or same_state(d, vec, True)
        if name == "get_state":
            d, _, dup = observed(L, I, r)
            if dup:
                return dup
            d2, _, _ = observed(L, I, r)
            return same_state(d, vec, True) or same_state(d2, d, False)
        if name == "release":
            q = obs[1]
            L.call(I, r, "release", q)
            left = sorted(L.loc_of(I, r))
            if q in left:
                return "the released id is still allocated"
            if left != [x for x in sorted(pos) if x != q]:
                return "releasing %d left ids %s" % (q, left)
            p1, p0 = prob_odd(vec, [pos[q]]), prob_even(vec, [pos[q]])
            d, cnt, dup = observed(L, I, r)
            if dup:
                return dup
            if cnt != len(left):
                return "state reports %s qubits after release" % cnt

            def drop(k):
                b = pos[q]
                return (k & ((1 << b) - 1)) | (k >> (b + 1) << b)
            if not left:
                return same_state(d, {0: C1}, False)
            # one of the two outcomes, consistently
            reasons = []
            for res in (True, False):
                pr = N(p1 if res else p0)
                if pr.is_const() and pr.const() == 0:
                    continue
                w = {drop(k): c for k, c in project(vec, [pos[q]], res).items()}
                e = same_collapsed(N, d, w, p1 if res else p0)
                if e is None:
                    e = check_outcome(I, N, p1, p0, res)
                if e is None:
                    break
                reasons.append(e)
            else:
                return "releasing a qubit does not leave a measured state: " + "; ".join(reasons)[:500]
            # the freed slot is clean: allocating again yields the same id in |0>
            nq = L.call(I, r, "allocate")
            if nq != min(set(range(n + 1)) - set(left)):
                return "allocate returned id %s" % nq
            d2, cnt2, dup = observed(L, I, r)
            if dup:
                return dup
            np = sorted(left + [nq]).index(nq)
            up = {(k & ((1 << np) - 1)) | (k >> np << (np + 1)): c for k, c in d.items()}
            return same_state(d2, up, False)
        raise Unsupported(name)
    lim = dict({"near0": near_hook()}, **({"steps": 40000000} if len(prefix) > 1000 else {}))
    if numeric:
        lim["numeric"] = numeric
    outs, comp = interp.explore(prog, models, entry, lim, max_paths=200)

    def ok(o):
        if o.kind == "return":
            return o.value
        return "%s: %s" % (o.kind, o.detail)
    return judge(outs, comp, ok)


def same_dump(t, vec):
    """The dump lists exactly the non-zero basis states in increasing order with their amplitudes."""
    t = models.as_text(t) if hasattr(models, "as_text") else t
    want = []
    for k in sorted(vec):
        want.append((k, vec[k]))
    parts = t.parts
    for p in parts:
        if not isinstance(p, str) and p[0] == "fmt" and any(o[0] == "prec" for o in p[1]):
            return "amplitudes are printed with %s digits only" % dict(p[1])["prec"]
    amps = [p[1] for p in parts if not isinstance(p, str)]
    lits = [p for p in parts if isinstance(p, str)]
    exp = ["STATE: [ " + ("|%d\u27e9: " % want[0][0] if want else "")]
    for i, (k, c) in enumerate(want):
        exp.append(", " + ("|%d\u27e9: " % want[i + 1][0] if i + 1 < len(want) else "]\n"))
    if lits != exp:
        return "dump prints %r, required %r" % (lits, exp)
    got = {k: (lift(a.f[0], True), lift(a.f[1], True)) for (k, _), a in zip(want, amps)}
    return same_state(got, dict(want), True)


def obligations_C02(prog, tier):
    cls = pending_classes(prog)
    obs = []

    def add(n, perm, prefix, o, **kw):
        obs.append(("observe:%s|%s" % (seqname(prefix), gname(o)), "sparsesim QuantumSim::" + o[0],
                    lambda: check_observer(prog, n, perm, prefix, o, **kw)))
    for s in cls:
        for s2 in cls:
            if len(s) + len(s2) > (6 if tier == "thorough" else 4):
                continue
            for under in ((), (("mcx", [1], 0), ("mcs", [0], 1))):
                if under and len(s) + len(s2) > 2 and tier != "thorough":
                    continue
                pre = list(under) + on(s, 0, "p") + on(s2, 1, "q")
                for o in [("measure", 0), ("joint_measure", [0, 1]), ("joint_probability", [0]), ("joint_probability", [1, 0]),
                          ("qubit_is_zero", 0), ("force_collapse", True, 0), ("force_collapse", False, 0), ("dump",), ("get_state",), ("release", 0)]:
                    if len(s) + len(s2) > 3 and o[0] in ("joint_measure", "measure", "release", "force_collapse") and tier != "thorough":
                        continue
                    add(2, [(0, 1)], pre, o)
    # states with few amplitudes, where the outcome may already be decided but for what is pending
    obsv = [("measure", 0), ("joint_measure", [0, 1]), ("joint_probability", [0]), ("joint_probability", [1, 0]), ("qubit_is_zero", 0), ("force_collapse", True, 0),
            ("force_collapse", False, 0), ("dump",), ("get_state",), ("release", 0)]
    few = [[(g, 0)] for g in ONEQ] + [[("rz", TA, 0)]] + [[(g, [1], 0)] for g in MC] + [[(g, [0], 1)] for g in ("mcx", "mcz", "mcy")] + [[("mcrz", [1], TA, 0)]]
    few += [[("y", 0), ("s", 0)], [("z", 0), ("y", 0)], [("x", 1), ("mcx", [1], 0)], [("y", 1), ("t", 0)], [("x", 0), ("h", 0)], [("s", 0), ("y", 1), ("mcx", [1], 0)], [("y", 0), ("ry", TA, 0)]]
    for pre in few:
        for o in obsv:
            for b in range(4) if tier == "thorough" else (0, 3):
                obs.append(("observe-basis-%d:%s|%s" % (b, seqname(pre), gname(o)), "sparsesim QuantumSim::" + o[0],
                            lambda pre=pre, o=o, b=b: check_observer(prog, 2, [(0, 1)], pre, o, basis=b)))
            if tier == "thorough":
                obs.append(("observe-sparse:%s|%s" % (seqname(pre), gname(o)), "sparsesim QuantumSim::" + o[0],
                            lambda pre=pre, o=o: check_observer(prog, 2, [(0, 1)], pre, o, present={0, 3}, real=True)))
    for k in (18, 35, 52, 70, 103, 130, 260, 515) + ((1030, 2050, 4100, 10001) if tier == "thorough" else ()):
        for o in [("measure", 0), ("joint_measure", [0, 1]), ("joint_probability", [0]), ("qubit_is_zero", 0), ("force_collapse", True, 0), ("dump",),
                  ("get_state",), ("release", 0)]:
            obs.append(("observe:queue of %d|%s" % (k, gname(o)), "sparsesim QuantumSim::" + o[0],
                        lambda o=o, k=k: check_observer(prog, 2, [(0, 1)], long_prefix(k), o, real=True)))
    return obs


def obligations_C05(prog, tier):
    obs = []

    def add(tag, n, perm, prefix, o, **kw):
        obs.append(("%s:%s|%s" % (tag, seqname(prefix), gname(o)), "sparsesim QuantumSim::" + o[0],
                    lambda: check_observer(prog, n, perm, prefix, o, **kw)))
    sets3 = [[0], [1], [2], [0, 1], [1, 2], [2, 0], [0, 1, 2], [2, 1, 0]]
    for qs in sets3:
        for perm in (None, [(0, 2), (1, 2)]):
            add("generic" + ("" if perm is None else "-permuted"), 3, perm, (), ("joint_measure", qs), real=False)
            add("generic" + ("" if perm is None else "-permuted"), 3, perm, (), ("joint_probability", qs), real=False)
            for present in ({0, 3}, {0, 5, 6}, {1, 2, 4, 7}):
                add("sparse-%s%s" % (present, "" if perm is None else "-permuted"), 3, perm, (), ("joint_measure", qs), present=present, real=False)
                add("sparse-%s%s" % (present, "" if perm is None else "-permuted"), 3, perm, (), ("joint_probability", qs), present=present, real=False)
    for q in range(3):
        for o in [("measure", q), ("force_collapse", True, q), ("force_collapse", False, q), ("qubit_is_zero", q)]:
            add("generic", 3, [(0, 2)], (), o, real=False)
            for present in ({0, 3}, {0, 5, 6}, {1, 2, 4, 7}):
                add("sparse-%s" % present, 3, [(0, 2)], (), o, present=present, real=False)
    for b in range(4):
        for o in [("measure", 0), ("measure", 1), ("joint_measure", [0, 1]), ("force_collapse", True, 0), ("force_collapse", False, 0),
                  ("qubit_is_zero", 0), ("qubit_is_zero", 1), ("joint_probability", [0, 1])]:
            add("basis-%d" % b, 2, [(0, 1)], (), o, basis=b)
            add("basis-%d" % b, 2, [(0, 1)], [("x", 0)], o, basis=b)
    # entangled and superposed states
    for pre in ([("h", 0), ("mcx", [0], 1)], [("h", 0), ("mcx", [0], 1), ("h", 1)], [("ry", TA, 0), ("mcx", [0], 1)], [("rx", TA, 0)]):
        for o in [("measure", 0), ("measure", 1), ("joint_measure", [1, 0]), ("force_collapse", True, 1), ("force_collapse", False, 1)]:
            add("prepared", 2, None, pre, o, basis=0)
    for n, at in wide_cases(tier):
        a, b, c = at
        for o in [("measure", a), ("measure", b), ("joint_measure", [a, b]), ("joint_measure", [c, b, a]), ("joint_probability", [b, c]), ("joint_probability", [c]),
                  ("force_collapse", True, b), ("force_collapse", False, c), ("qubit_is_zero", b)]:
            obs.append(("wide:%d|%s" % (n, gname(o)), "sparsesim QuantumSim::" + o[0], lambda n=n, at=at, o=o: wide_observer(prog, n, at, (), o, basis=(0, 3, 5, 6))))
    # outcomes that are improbable, but not impossible
    for s, at in (({0, 1}, 1), ({0, 1}, 0), ({0, 3}, 3), ({1, 2}, 2), ({0, 1, 2, 3}, 2)):
        for o in [("measure", 0), ("joint_measure", [0, 1]), ("joint_measure", [1]), ("joint_probability", [0]), ("joint_probability", [0, 1]), ("qubit_is_zero", 0), ("qubit_is_zero", 1),
                  ("force_collapse", True, 0), ("force_collapse", False, 0), ("force_collapse", True, 1)]:
            for tiny in (5e-5, 3e-4):
                obs.append(("small:%g at %s of %s|%s" % (tiny, bin(at)[2:], "+".join(bin(x)[2:] for x in sorted(s)), gname(o)), "sparsesim QuantumSim::" + o[0],
                            lambda s=s, at=at, o=o, tiny=tiny: check_observer(prog, 2, [(0, 1)], (), o, present=s, numeric=sized(tiny, s, at))))
    # more qubits in the parity, and more states in superposition
    for n in (4, 5, 6):
        full = (1 << n) - 1
        for st in ({0, 1, full}, {0, 3, 5, 9, 6, 10}, {1, 2, 4, 8, 7, 11, 13, 14, 15}, {0, full - 1, 5, 2, 12}) + ((set(range(10)) | {full},) if n > 4 else (set(range(16)),)):
            for qs in (list(range(n)), list(range(n))[::-1], list(range(n - 1)), [n - 1] + list(range(1, n - 1)), [n // 2]):
                for o in [("joint_measure", qs), ("joint_probability", qs)] + ([("measure", qs[0]), ("force_collapse", True, qs[0]), ("force_collapse", False, qs[0]),
                                                                                 ("qubit_is_zero", qs[0])] if len(qs) == 1 else []):
                    add("more-%d:%s" % (n, sorted(st)), n, [(0, n - 1)], (), o, present=st, real=o[0] not in ("measure", "joint_measure", "joint_probability"))
    # measuring the same parity twice, and two different ones in a row
    for a, b in itertools.product([[0], [1], [0, 1]], repeat=2):
        obs.append(("repeat:%s,%s" % (a, b), "sparsesim QuantumSim::joint_measure", lambda a=a, b=b: check_repeat(prog, a, b)))
    return obs


def check_repeat(prog, a, b):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, 2, [(0, 1)])
        vec = generic(L, I, r, real=True)
        N = Norm(vec)
        v = I.truth(L.call(I, r, "joint_measure", a))
        vec1 = project(vec, a, v)
        w = prob_odd(vec, a) if v else prob_even(vec, a)
        s2 = dom.recip(w)
        p1 = prob_odd(vec1, b) * s2
        got = L.call(I, r, "joint_probability", b)
        if not N.same(got, p1):
            return "after outcome %s of %s the probability of odd %s is %r, required %r" % (v, a, b, got, p1)
        return None
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook()})
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else "%s: %s" % (o.kind, o.detail))


# ------------------------------------------------------------------ qubits stored beyond a machine word
WIDE = 67


def spread(bits, at):
    return sum(1 << at[i] for i in range(len(at)) if bits >> i & 1)


def wide_cases(tier):
    """(number of qubits, the three ids used)"""
    out = [(WIDE, (1, 64, 66)), (WIDE, (65, 0, 33))]
    if tier == "thorough":
        out += [(131, (2, 64, 130)), (131, (129, 128, 31))]
    return out


def wide_sequence(prog, n, at, prefix, gate, basis=(0, 1, 6, 7)):
    return check_sequence(prog, n, None, prefix, gate, present={spread(b, at) for b in basis}, real=True)


def wide_observer(prog, n, at, prefix, o, basis=(0, 3, 5), perm=None):
    return check_observer(prog, n, perm, prefix, o, present={spread(b, at) for b in basis}, real=not (o[0] == "measure" or o[0].startswith("joint")))


# ------------------------------------------------------------------ C07: life cycle
def obligations_C07(prog, tier):
    obs = []
    nmax = 5 if tier == "thorough" else 4
    for n in range(0, nmax + 1):
        for k in range(0, n + 1):
            for free in itertools.combinations(range(n), k):
                obs.append(("allocate:%d-without-%s" % (n, list(free)), "sparsesim QuantumSim::allocate",
                            lambda n=n, free=free: check_allocate(prog, n, free)))
    cls = pending_classes(prog)
    for s in cls:
        for n in (1, 2, 3):
            for q in range(n):
                if n == 3 and len(s) > 2 and tier != "thorough":
                    continue
                obs.append(("release:%d-of-%d|%s" % (q, n, seqname(s)), "sparsesim QuantumSim::release",
                            lambda n=n, q=q, s=s: check_observer(prog, n, [(0, n - 1)] if n > 1 else None, on(s, q, "p"), ("release", q))))
        for s2 in cls:
            if len(s) + len(s2) > 3:
                continue
            pre = on(s2, 1, "q") + on(s, 0, "p")
            obs.append(("release:0-of-2|%s" % seqname(pre), "sparsesim QuantumSim::release",
                        lambda pre=pre: check_observer(prog, 2, [(0, 1)], pre, ("release", 0))))
            # the whole register is given back with work pending, and a new one is fresh
            obs.append(("recycle|%s" % seqname(pre), "sparsesim QuantumSim::release", lambda pre=pre: check_recycle(prog, pre)))
    for n, at in wide_cases(tier):
        for q in at:
            for s in ((), (("h", q),), (("ry", TA, q),)):
                obs.append(("release-wide:%d-of-%d|%s" % (q, n, seqname(s)), "sparsesim QuantumSim::release",
                            lambda n=n, at=at, q=q, s=s: wide_observer(prog, n, at, s, ("release", q))))
    for n in (4, 5, 6):
        full = (1 << n) - 1
        for q in (0, n // 2, n - 1):
            for st in ({0}, {full}, {full - (1 << q)}, {1 << q, 2}, {0, full}, {full - 1, 5, 6}):
                if len(st) > 1 and len({k >> q & 1 for k in st}) < 2:
                    continue        # the outcome is certain; the single states cover that
                for pre in ((), (("h", q),), (("x", (q + 1) % n),), (("ry", TA, (q + 1) % n),)) if len(st) < 2 else ((),):
                    obs.append(("release-more:%d-of-%d|%s|%s" % (q, n, sorted(st), seqname(pre)), "sparsesim QuantumSim::release",
                                lambda n=n, q=q, st=st, pre=pre: check_observer(prog, n, [(0, n - 1)], list(pre), ("release", q),
                                                                                          **({"basis": min(st)} if len(st) < 2 else {"present": st}))))
    # ids and locations past a machine word, in and out of order
    for n, perm, free in [(67, [(0, 64)], (64,)), (67, [(0, 64)], (0,)), (67, [(1, 65), (0, 66)], (65, 1)), (67, [(64, 65)], (64, 65)), (67, [(3, 64)], (66, 3)),
                          (67, [(0, 33)], (33, 32)), (67, [(0, 1)], (66,)), (67, [(2, 64), (64, 63)], (63, 64, 2))] \
            + ([(131, [(0, 128)], (128,)), (131, [(5, 130), (64, 128)], (64, 130))] if tier == "thorough" else []):
        m = n - len(free)
        obs.append(("allocate-wide:%d-%s-without-%s" % (n, perm, list(free)), "sparsesim QuantumSim::allocate",
                    lambda n=n, perm=perm, free=free, m=m: check_allocate(prog, n, free, perm, {0, 3, 1 << (m - 1), (1 << 31) + 2})))
    for b in range(4):
        for q in (0, 1):
            obs.append(("release-basis:%d|%d" % (q, b), "sparsesim QuantumSim::release",
                        lambda q=q, b=b: check_observer(prog, 2, [(0, 1)], (), ("release", q), basis=b)))
    return obs


def check_allocate(prog, n, free, perm=None, present=None):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, n, perm or ([(0, n - 1)] if n > 1 else None), free)
        live = [q for q in range(n) if q not in free]
        locs = L.loc_of(I, r)
        if sorted(locs) != live:
            return "after releasing %s the live ids are %s" % (list(free), sorted(locs))
        vec = generic(L, I, r, present, real=True) if live else {0: C1}
        for q in live[:1]:
            L.call(I, r, "h", q)
            vec = apply2(vec, matrix("h"), 0)
        nq = L.call(I, r, "allocate")
        want = min(set(range(n + 1)) - set(live))
        if nq != want:
            return "allocate returned id %s, the lowest free id is %d" % (nq, want)
        locs2 = L.loc_of(I, r)
        if sorted(locs2) != sorted(live + [nq]) or len(set(locs2.values())) != len(locs2):
            return "id map after allocate: %s" % locs2
        if any(locs2[q] != locs[q] for q in live):
            return "allocate moved an existing qubit"
        d, cnt, dup = observed(L, I, r)
        if dup:
            return dup
        np = sorted(live + [nq]).index(nq)
        up = {(k & ((1 << np) - 1)) | (k >> np << (np + 1)): c for k, c in vec.items()}
        return same_state(d, up, False) or (None if cnt == len(live) + 1 else "state reports %s qubits" % cnt)
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook()})
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else "%s: %s" % (o.kind, o.detail))


def check_recycle(prog, prefix):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, 2, [(0, 1)])
        generic(L, I, r, real=True)
        V = valuer(I)
        for g in prefix:
            invoke(L, I, r, g, V)
        L.call(I, r, "release", 1)
        L.call(I, r, "release", 0)
        ids = [L.call(I, r, "allocate") for _ in range(2)]
        if ids != [0, 1]:
            return "new ids %s" % ids
        d, cnt, dup = observed(L, I, r)
        return dup or same_state(d, {0: C1}, False)
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook()})
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else "%s: %s" % (o.kind, o.detail))


# ------------------------------------------------------------------ C08: bad operands
def bad_operand_calls():
    """(call, is it a duplicate?)"""
    out = []
    X = 5
    for g in ONEQ:
        out.append((g, X))
    for g in ROT:
        out.append((g, TG, X))
    for g in MC:
        out += [(g, [X], 0), (g, [0], X), (g, [0, X], 1), (g, [0], 0), (g, [0, 0], 1), (g, [0, 1], 1), (g, [1, 0], 1)]
    for g in MCROT:
        out += [(g, [X], TG, 0), (g, [0], TG, X), (g, [0, X], TG, 1), (g, [0], TG, 0), (g, [0, 0], TG, 1), (g, [1, 0], TG, 1)]
    out += [("mcphase", [X], PHASE, 0), ("mcphase", [0], PHASE, X), ("mcphase", [0], PHASE, 0), ("mcphase", [0, 0], PHASE, 1)]
    out += [("swap_qubit_ids", 0, X), ("swap_qubit_ids", X, 1)]
    out += [("exp", [], "XX", TG, [0, X]), ("exp", [], "XX", TG, [0, 0]), ("exp", [], "ZZ", TG, [1, 1]), ("mcexp", [0], "X", TG, [0]), ("mcexp", [0], "Z", TG, [0]),
            ("mcexp", [X], "X", TG, [0]), ("mcexp", [0], "X", TG, [X]), ("mcexp", [0, 0], "X", TG, [1]),
            ("mcexp", [0], "XYZ", TG, [1, 2, 1]), ("exp", [], "XYZ", TG, [1, 2, 1])]
    u1, u2 = umat("u", 1), umat("u", 2)
    out += [("apply", u1, [X], None), ("apply", u2, [0, 0], None), ("apply", u2, [0, X], None), ("apply", u1, [0], [0]), ("apply", u1, [0], [X]), ("apply", u1, [0], [1, 1]),
            ("apply", u2, [0], None), ("apply", u1, [0, 1], None)]
    return out


def obligations_C08(prog, tier):
    obs = []
    cls = [s for s in pending_classes(prog) if len(s) <= (3 if tier == "thorough" else 1)]
    for g in bad_operand_calls():
        for s in cls:
            pre = on(s, 0, "p") + on(s, 1, "q")
            obs.append(("operands:%s|%s" % (seqname(pre), gname(g)), "sparsesim QuantumSim::" + g[0],
                        lambda g=g, pre=pre: check_bad_gate(prog, pre, g)))
    for o in [("measure", 5), ("joint_measure", [0, 5]), ("joint_measure", [0, 0]), ("joint_measure", [1, 0, 1]), ("joint_probability", [5]),
              ("joint_probability", [1, 1]), ("joint_probability", [0, 1, 0]), ("qubit_is_zero", 5), ("force_collapse", True, 5), ("force_collapse", False, 5), ("release", 5)]:
        for s in cls:
            pre = on(s, 0, "p")
            obs.append(("operands:%s|%s" % (seqname(pre), gname(o)), "sparsesim QuantumSim::" + o[0], lambda o=o, pre=pre: check_bad_call(prog, pre, o)))
    # longer operand lists, the repetition at every pair of places
    for k in (4, 5):
        for i, j in itertools.combinations(range(k), 2):
            qs = list(range(k))
            qs[j] = qs[i]
            for o in [("joint_measure", qs), ("joint_probability", qs)]:
                obs.append(("operands:long|%s" % gname(o), "sparsesim QuantumSim::" + o[0], lambda o=o, k=k: check_bad_call(prog, (), o, n=k)))
            for g in [("exp", [], "XYZX"[:4] + "Z" * (k - 4), TG, qs), ("mcx", qs[:-1], qs[-1]), ("mcz", qs[:-1], qs[-1]), ("mch", qs[:-1], qs[-1]),
                      ("mcrx", qs[:-1], TG, qs[-1]), ("mcexp", qs[:2], "ZXY"[:k - 2], TG, qs[2:])]:
                obs.append(("operands:long|%s" % gname(g), "sparsesim QuantumSim::" + g[0], lambda g=g, k=k: check_bad_gate(prog, (), g, n=k)))
    for k in (4, 5):
        for i in range(k):
            qs = list(range(k))
            qs[i] = k + 3
            for o in [("joint_measure", qs), ("joint_probability", qs)]:
                obs.append(("operands:long|%s" % gname(o), "sparsesim QuantumSim::" + o[0], lambda o=o, k=k: check_bad_call(prog, (), o, n=k)))
            g = ("mcx", qs[:-1], qs[-1])
            obs.append(("operands:long|%s" % gname(g), "sparsesim QuantumSim::" + g[0], lambda g=g, k=k: check_bad_gate(prog, (), g, n=k)))
    # many operands
    for k in (8, 9, 17, 33, 65):
        for i, j in ((0, k - 1), (k - 2, k - 1), (k // 2, k // 2 + 1)):
            qs = list(range(k))
            qs[j] = qs[i]
            bad = list(range(k))
            bad[i] = k + 3
            for q2 in (qs, bad):
                if q2 is bad and j != k - 1:
                    continue
                for o in [("joint_measure", q2), ("joint_probability", q2)]:
                    obs.append(("operands:many|%s" % gname(o), "sparsesim QuantumSim::" + o[0], lambda o=o, k=k: check_bad_call(prog, (), o, n=k)))
                for g in [("exp", [], "Z" * k, TG, q2), ("mcx", q2[:-1], q2[-1]), ("mcz", q2[:-1], q2[-1]), ("mch", q2[:-1], q2[-1]), ("mcrz", q2[:-1], TG, q2[-1]),
                          ("mcphase", q2[:-1], PHASE, q2[-1]), ("mcrx", q2[:-1], TG, q2[-1]), ("mcexp", q2[:-2], "ZX", TG, q2[-2:])]:
                    obs.append(("operands:many|%s" % gname(g), "sparsesim QuantumSim::" + g[0], lambda g=g, k=k: check_bad_gate(prog, (), g, n=k)))
    for k in (5, 6, 7):
        for i, j in ((0, k - 1), (k - 2, k - 1), (0, 1)):
            qs = list(range(k))
            qs[j] = qs[i]
            for t in (1, 2):
                g = ("apply", umat("u", t), qs[-t:], qs[:-t])
                obs.append(("operands:many|%s" % gname(g), "sparsesim QuantumSim::apply", lambda g=g, k=k: check_bad_gate(prog, (), g, n=k)))
    # ids past the width of a machine word
    for k, i, j in ((66, 64, 65), (66, 0, 64), (132, 130, 129)) + (((260, 255, 257),) if tier == "thorough" else ()):
        for qs in ([i, j, i], [j, i, i]):
            for o in [("joint_measure", qs), ("joint_probability", qs)]:
                obs.append(("operands:wide-%d|%s" % (k, gname(o)), "sparsesim QuantumSim::" + o[0], lambda o=o, k=k: check_bad_call(prog, (), o, n=k)))
            for g in [("exp", [], "XYZ", TG, qs), ("mcx", qs[:-1], qs[-1]), ("mcexp", qs[:1], "YX", TG, qs[1:]), ("apply", umat("u", 1), [qs[2]], qs[:2])]:
                obs.append(("operands:wide-%d|%s" % (k, gname(g)), "sparsesim QuantumSim::" + g[0], lambda g=g, k=k: check_bad_gate(prog, (), g, n=k)))
    # an id that was allocated once and has been released
    for g in [(x, 1) for x in ONEQ] + [(x, TG, 1) for x in ROT] + [(x, [1], 0) for x in MC] + [(x, [0], 1) for x in MC] + [("swap_qubit_ids", 0, 1)]:
        obs.append(("released-operand:%s" % gname(g), "sparsesim QuantumSim::" + g[0], lambda g=g: check_bad_gate(prog, (), g, free=(1,))))
    for o in [("measure", 1), ("joint_measure", [0, 1]), ("joint_probability", [1]), ("force_collapse", True, 1), ("release", 1)]:
        obs.append(("released-operand:%s" % gname(o), "sparsesim QuantumSim::" + o[0], lambda o=o: check_bad_call(prog, (), o, free=(1,))))
    return obs


def check_bad_gate(prog, prefix, g, free=(), n=3):
    """The call must be rejected by the time anything is observed; it must never take effect, not even on a later qubit."""
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, n, [(0, 1)], free)
        vec = generic(L, I, r, {0, 1, 2, 3} - ({2, 3} if free else set()), real=True)
        V = valuer(I)
        pos = {q: i for i, q in enumerate(sorted(L.loc_of(I, r)))}
        for x in prefix:
            invoke(L, I, r, x, V)
            vec = meaning(vec, relabel(x, pos), V)
        invoke(L, I, r, g, V)
        while len(L.loc_of(I, r)) < max(6, n):
            L.call(I, r, "allocate")
        d, cnt, dup = observed(L, I, r)
        if dup:
            return dup
        if free:
            vec = {(k & 1) | (k >> 1 << 2): c for k, c in vec.items()}
        e = same_state(d, vec, True)
        return "accepted and " + e if e else None
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook(True, False)}, subst_depth=1)
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else None if o.kind == "panic" else "%s: %s" % (o.kind, o.detail))


def check_bad_call(prog, prefix, o, free=(), n=3):
    L = lab_cache(prog)

    def entry(I):
        r = setup(L, I, n, [(0, 1)], free)
        generic(L, I, r, None if n == 3 else {0, 1, 6, 13}, real=True)
        V = valuer(I)
        for x in prefix:
            invoke(L, I, r, x, V)
        a = [list(x) if isinstance(x, list) else x for x in o[1:]]
        L.call(I, r, o[0], *a)
        return "accepted: the call returns normally"
    outs, comp = interp.explore(prog, models, entry, {"near0": near_hook()})
    return judge(outs, comp, lambda o: o.value if o.kind == "return" else None if o.kind == "panic" else "%s: %s" % (o.kind, o.detail))


# ------------------------------------------------------------------ C09: ids and locations
def obligations_C09(prog, tier):
    obs = []
    perms = []
    for p in itertools.permutations(range(3)):
        # as swaps of ids
        cur, sw = [0, 1, 2], []
        for i in range(3):
            j = cur.index(p[i])
            if j != i:
                sw.append((i, j))
                cur[i], cur[j] = cur[j], cur[i]
        perms.append((p, sw))
    for p, sw in perms:
        for free in ((), (0,), (1,), (2,), (0, 1)):
            live = [q for q in range(3) if q not in free]
            for o in [("get_state",), ("dump",)]:
                for s in ((), [("h", live[0])], [("rx", TA, live[-1]), ("ry", TB, live[-1])]):
                    obs.append(("order:%s-free%s|%s|%s" % (list(p), list(free), seqname(s), o[0]), "sparsesim QuantumSim::" + o[0],
                                lambda sw=sw, free=free, o=o, s=s: check_observer(prog, 3, sw, s, o, free=free)))
            m = len(live)
            for keys in [{k} for k in range(1 << m)] + ([{0, (1 << m) - 1}, {1, (1 << m) - 2}] if m > 1 else []):
                for o in [("get_state",), ("dump",)]:
                    obs.append(("order:%s-free%s|sparse-%s|%s" % (list(p), list(free), sorted(keys), o[0]), "sparsesim QuantumSim::" + o[0],
                                lambda sw=sw, free=free, o=o, keys=keys: check_observer(prog, 3, sw, (), o, free=free, present=keys)))
                if m > 1 and len(keys) == 1:
                    for g in (("apply", umat("u", 1), [live[-1]], None), ("apply", umat("u", 1), [live[0]], [live[-1]]), ("swap_qubit_ids", live[0], live[-1]), ("exp", [], "XY", TG, [live[0], live[-1]])):
                        obs.append(("order:%s-free%s|sparse-%s|%s" % (list(p), list(free), sorted(keys), gname(g)), "sparsesim QuantumSim::" + g[0],
                                    lambda sw=sw, free=free, g=g, keys=keys: check_sequence(prog, 3, sw, (), g, free=free, present=keys)))
            gates = [("swap_qubit_ids", live[0], live[-1]), ("apply", umat("u", 1), [live[-1]], None), ("mcx", [live[0]], live[-1]) if len(live) > 1 else ("x", live[0])]
            if len(live) > 1:
                gates += [("apply", umat("u", 2), [live[-1], live[0]], None), ("apply", umat("u", 1), [live[0]], [live[-1]]), ("exp", [], "XY", TG, [live[0], live[-1]])]
            for g in gates:
                obs.append(("order:%s-free%s|%s" % (list(p), list(free), gname(g)), "sparsesim QuantumSim::" + g[0],
                            lambda sw=sw, free=free, g=g: check_sequence(prog, 3, sw, [("h", live[0])] if g[0] == "x" else (), g, free=free, real=True, twice=True)))
    for n, at in wide_cases(tier):
        a, b, c = at
        for o in (("get_state",), ("dump",)):
            for perm in (None, [(a, b)], [(a, c), (b, c)], [(0, n - 1), (b, n - 1)]):
                obs.append(("wide:%d|%s|%s" % (n, perm, o[0]), "sparsesim QuantumSim::" + o[0],
                            lambda n=n, at=at, o=o, perm=perm: wide_observer(prog, n, at, [("h", at[1])], o, perm=perm)))
        for g in (("swap_qubit_ids", a, b), ("apply", umat("u", 2), [a, b], None), ("apply", umat("u", 1), [c], [b]), ("exp", [], "XYZ", TG, [a, b, c])):
            obs.append(("wide:%d|%s" % (n, gname(g)), "sparsesim QuantumSim::" + g[0], lambda n=n, at=at, g=g: wide_sequence(prog, n, at, (("h", at[0]),), g)))
    # exchanging ids carries every pending operation along
    cls = pending_classes(prog)
    for s in cls:
        for s2 in cls:
            if len(s) + len(s2) > 5:
                continue
            pre = on(s, 0, "p") + on(s2, 1, "q")
            for tail in ((), (("h", 0),), (("mcx", [0], 1),)):
                if tail and len(s) + len(s2) > 3:
                    continue
                obs.append(("exchange:%s;swap;%s" % (seqname(pre), seqname(tail)), "sparsesim QuantumSim::swap_qubit_ids",
                            lambda pre=pre, tail=tail: check_sequence(prog, 2, None, pre + [("swap_qubit_ids", 0, 1)] + list(tail), None, real=True)))
    for seq in ([("swap_qubit_ids", 0, 0)], [("swap_qubit_ids", 0, 1), ("swap_qubit_ids", 1, 0)],
                [("h", 0), ("swap_qubit_ids", 0, 1), ("x", 0), ("swap_qubit_ids", 1, 2), ("ry", TA, 2), ("swap_qubit_ids", 0, 2)]):
        obs.append(("exchange:" + seqname(seq), "sparsesim QuantumSim::swap_qubit_ids", lambda seq=seq: check_sequence(prog, 3, None, seq, None, real=True)))
    return obs
