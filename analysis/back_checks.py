"""Properties of the exported instruction set (C06, C08 (part), C10-C17): every instruction is interpreted from its C entry point."""
import itertools
import random
import dom
import interp
import models
import backlab
import sim_checks as S
from dom import A, lift, ONE, ZERO, P_PI
from engine import BAD, OK, UNK, MissingAnchor, Result, judge
from interp import Agg, NatV, Poly, Ref, StrV, Unsupported, VecV
from simlab import *

TA = S.TA
QIS, RT = "__quantum__qis__", "__quantum__rt__"
PAULI = {"I": 0, "X": 1, "Z": 2, "Y": 3}
_B = {}


def back(prog):
    if id(prog) not in _B:
        B = backlab.Back(prog)
        missing = [n for n in NEEDED if not B.has(n)]
        if missing:
            raise MissingAnchor("not exported: " + ", ".join(missing))
        if B.state_key is None or B.sim_i is None:
            raise Unsupported("the backend has no thread-local simulator state of the expected kind")
        _B[id(prog)] = B
    return _B[id(prog)]


# ------------------------------------------------------------------ the instruction set: how to call it, what it means
# each form: list of (export name, call arguments, meaning).  Arguments: int = qubit, Poly = angle, ("ctl", ids),
# ("paulis", "XY"), ("qubits", ids), ("pauli", "X"), ("rot", angle, q), ("prot", "X", angle, q), ("pexp", "XY", angle, qs)
PLAIN = {"h__body": "h", "s__body": "s", "s__adj": "sadj", "t__body": "t", "t__adj": "tadj", "x__body": "x", "y__body": "y", "z__body": "z"}
ROTS = {"rx__body": "rx", "ry__body": "ry", "rz__body": "rz"}
CTL1 = {"cnot__body": "x", "cx__body": "x", "cy__body": "y", "cz__body": "z"}
CTLN = {"h__ctl": "h", "s__ctl": "s", "s__ctladj": "sadj", "t__ctl": "t", "t__ctladj": "tadj", "x__ctl": "x", "y__ctl": "y", "z__ctl": "z"}
CTLR = {"rx__ctl": "rx", "ry__ctl": "ry", "rz__ctl": "rz"}
PAIR = {"rxx__body": "XX", "ryy__body": "YY", "rzz__body": "ZZ"}
OTHER = ["ccx__body", "sx__body", "swap__body", "r__body", "r__adj", "r__ctl", "r__ctladj", "exp__body", "exp__adj", "exp__ctl", "exp__ctladj"]
OBSERVE = ["mz__body", "m__body", "mresetz__body", "reset__body", "measure__body", "assertmeasurementprobability__body",
           "assertmeasurementprobability__ctl", "read_result__body"]
RTN = ["initialize", "read_result", "write_result", "result_record_output", "result_equal", "result_get_one", "result_get_zero",
       "qubit_allocate", "qubit_allocate_array", "qubit_release", "qubit_release_array"]
GATES = list(PLAIN) + list(ROTS) + list(CTL1) + list(CTLN) + list(CTLR) + list(PAIR) + OTHER
NEEDED = [QIS + g for g in GATES + OBSERVE] + [RT + n for n in RTN]


def mc(g, ctls, t, *par):
    return lambda v, V: apply2(v, matrix(g, *[V(p) for p in par]), t, ctls)


def rexp(ps, k, theta, qs, ctls=()):
    if set(ps) == {"I"} and not ctls:
        return lambda v, V: v              # a global phase
    return lambda v, V: apply_exp(v, ps, V(theta) * k, qs, ctls)


def gate_instances(qs, th, nctl=(0, 1, 2)):
    """Every exported gate applied to the qubits qs (at least 3 distinct ids), with every number of controls asked for."""
    a, b, c = qs[0], qs[1], qs[2]
    out = []
    for n, g in PLAIN.items():
        out.append((n, [a], mc(g, (), a)))
    for n, g in ROTS.items():
        out.append((n, [th, a], mc(g, (), a, th)))
    for n, g in CTL1.items():
        out.append((n, [a, b], mc(g, (a,), b)))
    out.append(("ccx__body", [a, b, c], mc("x", (a, b), c)))
    out.append(("swap__body", [a, b], lambda v, V: permute(v, lambda k: swap_bits(k, a, b))))
    def sx(v, V):
        return apply2(apply2(apply2(v, matrix("h"), a), matrix("s"), a), matrix("h"), a)
    out.append(("sx__body", [a], sx))
    H = ONE * dom._norm(HALF)
    for n, p in PAIR.items():
        out.append((n, [th, a, b], rexp(p, -H, th, [a, b])))
    for p in "IXYZ":
        out.append(("r__body", [("pauli", p), th, a], rexp(p, -H, th, [a])))
        out.append(("r__adj", [("pauli", p), th, a], rexp(p, H, th, [a])))
    for k in nctl:
        cs, t = list(qs[1:1 + k]), a
        for n, g in CTLN.items():
            out.append((n, [("ctl", cs), t], mc(g, tuple(cs), t)))
        for n, g in CTLR.items():
            out.append((n, [("ctl", cs), ("rot", th, t)], mc(g, tuple(cs), t, th)))
        for p in "IXYZ":
            out.append(("r__ctl", [("ctl", cs), ("prot", p, th, t)], rexp(p, -H, th, [t], cs)))
            out.append(("r__ctladj", [("ctl", cs), ("prot", p, th, t)], rexp(p, H, th, [t], cs)))
    return out


def exp_instances(qs, th, words=None):
    out = []
    for n in (1, 2):
        for w in words or ["".join(p) for p in itertools.product("IXYZ", repeat=n)]:
            if len(w) != n:
                continue
            ts = list(qs[:n])
            out.append(("exp__body", [("paulis", w), th, ("qubits", ts)], rexp(w, ONE, th, ts)))
            out.append(("exp__adj", [("paulis", w), th, ("qubits", ts)], rexp(w, -ONE, th, ts)))
            for cs in ([], [qs[n]]) if n == 2 else ([], [qs[1]], [qs[2], qs[1]]):
                out.append(("exp__ctl", [("ctl", cs), ("pexp", w, th, ts)], rexp(w, ONE, th, ts, cs)))
                out.append(("exp__ctladj", [("ctl", cs), ("pexp", w, th, ts)], rexp(w, -ONE, th, ts, cs)))
    return out


def exp_long(qs, th, words, ncs=(0, 1, 2)):
    """Exponentials of longer Pauli strings; qs lists enough ids for the targets and the controls."""
    out = []
    for w in words:
        ts = list(qs[:len(w)])
        out.append(("exp__body", [("paulis", w), th, ("qubits", ts)], rexp(w, ONE, th, ts)))
        out.append(("exp__adj", [("paulis", w), th, ("qubits", ts)], rexp(w, -ONE, th, ts)))
        for k in ncs:
            cs = list(qs[len(w):len(w) + k])
            if len(cs) == k:
                out.append(("exp__ctl", [("ctl", cs), ("pexp", w, th, ts)], rexp(w, ONE, th, ts, cs)))
                out.append(("exp__ctladj", [("ctl", cs), ("pexp", w, th, ts)], rexp(w, -ONE, th, ts, cs)))
    return out


def show_arg(a):
    if isinstance(a, tuple):
        return "".join("%s" % (x,) for x in a[1:] if not isinstance(x, Poly))
    return repr(a) if not isinstance(a, Poly) else "t"


def iname(inst):
    return ("%s(%s)" % (inst[0], ",".join(show_arg(a) for a in inst[1]))).replace(" ", "")


def marshal(B, I, a, V):
    if isinstance(a, Poly):
        return V(a)
    if isinstance(a, tuple):
        k = a[0]
        if k in ("ctl", "qubits"):
            return B.array(I, list(a[1]))
        if k == "paulis":
            return B.array(I, [PAULI[c] for c in a[1]], 1)
        if k == "pauli":
            return pauli_val(B, a[1])
        if k == "rot":
            return B.tuple(I, [(V(a[1]), 8), (a[2], 8)])
        if k == "prot":
            return B.tuple(I, [(PAULI[a[1]], 1), (V(a[2]), 8), (a[3], 8)])
        if k == "pexp":
            return B.tuple(I, [(marshal(B, I, ("paulis", a[1]), V), 8), (V(a[2]), 8), (marshal(B, I, ("qubits", a[3]), V), 8)])
    return a


def pauli_val(B, c):
    f = B.ex(QIS + "r__body")
    t = f.locals[1]
    for i, v in enumerate(t.variants):
        if v[0] == c:
            return Agg(t, i, ())
    raise MissingAnchor("no Pauli %s" % c)


def perform(B, I, inst, V):
    args = [marshal(B, I, a, V) for a in inst[1]]
    return B.call(I, QIS + inst[0], *args)


def alloc(B, I, n, perm=None):
    for k in range(n):
        q = B.call(I, RT + "qubit_allocate")
        if q != k:
            raise Unsupported("qubit_allocate returned %s" % (q,))
    for a, b in perm or ():
        B.sim.call(I, B.simref(I), "swap_qubit_ids", a, b)


def state(B, I):
    return S.observed(B.sim, I, B.simref(I))


def fine(o):
    if o.kind == "return":
        return o.value
    return "%s: %s" % (o.kind, o.detail)


def explore(prog, entry, near=(False, False), depth=2, paths=400, steps=2000000):
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook(*near), "steps": steps}, max_paths=paths, subst_depth=depth)
    return judge(outs, comp, fine)


# ------------------------------------------------------------------ C10
def check_gates(prog, n, perm, insts, present=None, prefix=(), near=(False, False), fin=None):
    B = back(prog)

    def entry(I):
        alloc(B, I, n, perm)
        V = S.valuer(I)
        r = B.simref(I)
        vec = S.generic(B.sim, I, r, present)
        for g in prefix:
            S.invoke(B.sim, I, r, g, V)
            vec = S.meaning(vec, g, V)
        for inst in insts:
            perform(B, I, inst, V)
            vec = inst[2](vec, V)
        if B.borrowed(I):
            return "the thread's state is still borrowed after the instruction"
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != n:
            return "%s qubits exist after the instruction instead of %d" % (cnt, n)
        return same_state(got, vec, True)
    return explore(prog, entry, near)


def inverse_pairs(qs, th):
    H = gate_instances(qs, th)
    E = exp_instances(qs, th)
    pair = {"s__body": "s__adj", "t__body": "t__adj", "s__ctl": "s__ctladj", "t__ctl": "t__ctladj", "r__body": "r__adj", "r__ctl": "r__ctladj",
            "exp__body": "exp__adj", "exp__ctl": "exp__ctladj"}
    for x in H + E:
        if x[0] in pair:
            for y in H + E:
                if y[0] == pair[x[0]] and y[1] == x[1]:
                    yield x, y


def obligations_C10(prog, tier):
    back(prog)
    obs = []
    th = TA

    def add(tag, inst, n, perm, **kw):
        obs.append(("%s:%s" % (tag, iname(inst)), QIS + inst[0], lambda: check_gates(prog, n, perm, [inst], **kw)))
    rots = {"rx", "ry", "rz", "rxx", "ryy", "rzz", "r", "exp"}
    orders = list(itertools.permutations(range(3)))
    for o in orders:
        for inst in gate_instances(o, th):
            add("generic", inst, 3, [(0, 2)])
    for o in orders if tier == "thorough" else [(0, 1, 2), (2, 0, 1)]:
        for inst in exp_instances(o, th):
            add("exp", inst, 3, [(1, 2)])
    # special angles: every multiple of pi/4
    for k in range(-8, 9):
        ang = P_PI * dom._norm(dom.Fraction(k, 4))
        for inst in gate_instances((1, 0, 2), ang, (0, 1) if tier != "thorough" else (0, 1, 2)):
            if inst[0].split("__")[0] in rots:
                add("angle%d" % k, inst, 3, None)
        for inst in exp_instances((1, 0, 2), ang, None if tier == "thorough" else ["X", "Y", "Z", "I", "XY", "ZZ", "IX", "YI"]):
            add("angle%d" % k, inst, 3, None)
    # more controls
    for inst in gate_instances((1, 0, 2, 3), th, (3,)):
        if "__ctl" in inst[0]:
            add("three-controls", inst, 4, [(0, 3)])
    for nc in (4, 5) if tier != "thorough" else (4, 5, 6, 7):
        full = (1 << nc + 1) - 1
        for inst in gate_instances(tuple([1, 0] + list(range(nc, 1, -1))), th, (nc,)):
            if "__ctl" in inst[0]:
                for s in ({full, full - 2}, {full, full - 1, full - 2, 0}, {full - 1, full - 4, full - (1 << nc), 2}):
                    add("controls%d-%s" % (nc, sorted(s)), inst, nc + 1, [(0, 3)], present=s)
    for w in ("XYZ", "ZIY", "YYX", "ZZZZ", "XIYZ", "YXZX", "IIIY", "ZXYIX"):
        for inst in exp_long(tuple([2, 0, 1, 4, 3, 5, 6][:len(w) + 2]) if len(w) > 4 else tuple([2, 0, 1, 4, 3, 5]), th, [w]):
            n = 7 if len(w) > 4 else 6
            for s in ({0, 21}, {(1 << n) - 1, (1 << n) - 2 - 8}):
                add("exp-long-%s" % sorted(s), inst, n, [(0, 3)], present=s)
    # ids beyond a machine word
    for n, at in S.wide_cases(tier):
        pres = {S.spread(x, at) for x in (0, 3, 5, 6, 7)}
        for o in ((at[0], at[1], at[2]), (at[1], at[0], at[2]), (at[2], at[1], at[0])):
            for inst in gate_instances(o, th, (1, 2)) + exp_instances(o, th, ["X", "Z", "XY", "ZY"]):
                if o == (at[0], at[1], at[2]) or tier == "thorough" or len(named_qubits(inst)) > 1 and inst[0].split("__")[0] in ("x", "rx", "cx", "ccx", "swap", "exp", "rzz", "r"):
                    add("wide%d" % n, inst, n, None, present=pres)
    # work still deferred by the simulator on the operands, and applied twice in a row
    pres = [[("h", 0)], [("rx", S.TB, 1)], [("ry", S.TB, 0), ("h", 1)], [("h", 0), ("rx", S.TB, 1)]]
    for pre in pres:
        for o in [(0, 1, 2), (1, 0, 2)]:
            for inst in gate_instances(o, th, (1,)):
                add("after-" + S.seqname(pre), inst, 3, None, prefix=pre, present={0, 1, 2, 3} if tier != "thorough" else None)
    for inst in gate_instances((1, 0, 2), th) + exp_instances((0, 1, 2), th, ["X", "Y", "Z", "I", "XZ", "YY"]):
        obs.append(("twice:" + iname(inst), QIS + inst[0], lambda inst=inst: check_gates(prog, 3, None, [inst, inst], present={0, 3, 5, 6})))
    # the adjoint form undoes the body form
    for x, y in inverse_pairs((1, 0, 2), th):
        one = (x[0], x[1], lambda v, V: v)
        two = (y[0], y[1], lambda v, V: v)
        obs.append(("inverse:%s;%s" % (iname(x), iname(y)), QIS + y[0], lambda one=one, two=two: check_gates(prog, 3, [(0, 1)], [one, two])))
    # a barrier does nothing
    if prog.exports.get(QIS + "barrier__body"):
        for pre in pres:
            obs.append(("barrier:" + S.seqname(pre), QIS + "barrier__body",
                        lambda pre=pre: check_gates(prog, 3, None, [("barrier__body", [], lambda v, V: v)], prefix=pre)))
    return obs


# ------------------------------------------------------------------ C12: joint Pauli measurement
def apply_word(vec, word, qs):
    for p, q in zip(word, qs):
        if p != "I":
            vec = apply2(vec, matrix(p.lower()), q)
    return vec


def proj_word(vec, word, qs, odd):
    pv = apply_word(vec, word, qs)
    h = ONE * dom._norm(HALF)
    out = {}
    for k in set(vec) | set(pv):
        a, b = vec.get(k, C0), pv.get(k, C0)
        if odd:
            b = neg(b)
        c = (h * (a[0] + b[0]), h * (a[1] + b[1]))
        if not czero(c):
            out[k] = c
    return out


def weight(vec):
    t = ZERO
    for c in vec.values():
        t = t + c[0] * c[0] + c[1] * c[1]
    return t


def observer_setup(B, I, n, perm, present, basis, real, prefix):
    alloc(B, I, n, perm)
    V = S.valuer(I)
    r = B.simref(I)
    vec = S.install(B.sim, I, r, S.basis_vec(basis, n)) if basis is not None else S.generic(B.sim, I, r, present, real=real)
    N = S.Norm(vec)
    for g in prefix:
        S.invoke(B.sim, I, r, g, V)
        vec = S.meaning(vec, g, V)
    vec = {k: c for k, c in vec.items() if not czero(c)}
    I.trace = [t for t in I.trace if t[0] not in ("random", "entropy")]
    return vec, N


def draws(I):
    return sum(1 for t in I.trace if t[0] == "random")


def result_bit(B, I, v):
    """The truth of a returned result pointer, through the library's own comparison."""
    return I.truth(B.call(I, RT + "result_equal", v, B.call(I, RT + "result_get_one")))


def check_measure(prog, n, perm, word, qs, present=None, basis=None, real=True, prefix=(), twice=True):
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, n, perm, present, basis, real, prefix)
        v = B.call(I, QIS + "measure__body", marshal(B, I, ("paulis", word), None), B.array(I, list(qs)))
        res = result_bit(B, I, v)
        w1, w0 = proj_word(vec, word, qs, True), proj_word(vec, word, qs, False)
        p1, p0 = weight(w1), weight(w0)
        if S.infeasible(I, N):
            return None
        e = S.check_outcome(I, N, p1, p0, res)
        if e:
            return e
        if draws(I) > 1:
            return "%d random draws for one measurement" % draws(I)
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != n:
            return "%s qubits exist afterwards instead of %d" % (cnt, n)
        e = S.same_collapsed(N, got, w1 if res else w0, p1 if res else p0)
        if e:
            return e
        if B.borrowed(I):
            return "the thread's state is still borrowed"
        if not twice:
            return None
        if B.has(QIS + "m__body"):
            pass
        return None
    return explore(prog, entry)


def check_assert(prog, n, perm, word, qs, result, present=None, basis=None, prefix=(), form="body", near=0):
    """The assertion fails exactly when |p - prob| > tol, and never changes the state."""
    B = back(prog)
    pr, tol = A("sym", "prob"), A("sym", "tol")

    def entry(I):
        vec, N = observer_setup(B, I, n, perm, present, basis, True, prefix)
        w = proj_word(vec, word, qs, bool(result))
        p = weight(w)
        msg = B.call(I, RT + "string_create", B.cstr(I, "assertion text"))
        rv = B.call(I, RT + ("result_get_one" if result else "result_get_zero"))
        pa, qa = marshal(B, I, ("paulis", word), None), B.array(I, list(qs))
        I.mark = (N, p)
        if form == "body":
            B.call(I, QIS + "assertmeasurementprobability__body", pa, qa, rv, pr, msg, tol)
        else:
            t = B.tuple(I, [(pa, 8), (qa, 8), (rv, 8), (pr, 8), (msg, 8), (tol, 8)])
            B.call(I, QIS + "assertmeasurementprobability__ctl", B.array(I, []), t)
        if draws(I):
            return "an assertion draws a random number"
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != n:
            return "%s qubits exist afterwards instead of %d" % (cnt, n)
        e = same_state(got, vec, True)
        if e and not (S.same_collapsed(N, got, vec, ONE) is None):
            return "the assertion changes the state: " + e
        return None

    def ok(o):
        I = o.interp
        if o.kind == "return" and o.value:
            return o.value
        if o.kind not in ("return", "panic"):
            return fine(o)
        if not hasattr(I, "mark"):
            return fine(o)
        N, p = I.mark
        if o.kind == "panic" and "assertion text" not in str(o.detail):
            return "fails with %s" % o.detail
        # exactly one comparison |p - prob| ? tol decides
        facts = [(b, v) for b, v in I.bounds.items() if any(x.kind == "sym" for x in b.atoms())]
        verdict = decide_abs(I, N, p, pr, tol)
        if verdict is None:
            w = contradiction(I, N, p, pr, tol, o.kind == "panic")
            if w:
                return w
            raise Unsupported("cannot relate the assertion's test to |p - prob| > tol: %s" % [repr(b) for b, _ in facts])
        if verdict == "tie":
            return "the assertion %s on a path where |p - prob| >= tol, which includes a deviation of exactly the tolerance" % ("fails" if o.kind == "panic" else "passes")
        want = verdict
        if (o.kind == "panic") != want:
            return "the assertion %s on a path where |p - prob| %s tol (p = %r)" % (
                "fails" if o.kind == "panic" else "passes", ">" if want else "<=", N(p))
        return None
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=100)
    return judge(outs, comp, ok)


def decide_abs(I, N, p, pr, tol):
    """From the path's constraints on prob and tol: is |p - prob| > tol?  True, False or None when not implied.

    The path has constraints base in [lo, hi] with base linear in prob and tol (or in |p - prob| and tol). """
    d = p - pr
    le, gt, tie = set(), set(), set()
    for base, (lo, hi, ne) in I.bounds.items():
        c = base.d.get(((tol_atom(tol), 1),))
        if c is None:
            continue
        for bnd, is_hi in ((lo, False), (hi, True)):
            if bnd is None:
                continue
            # is_hi: base <= bnd ; else base >= bnd.  Write as  tol (<=,<,>=,>) e
            e = (lift(bnd[0], True) - (base - Poly({((tol_atom(tol), 1),): c}))) * dom._norm(dom.Fraction(1) / c)
            up = is_hi == (c > 0)
            strict = bnd[1] or bnd[0] in ne
            at = abs_atom(e)
            if at is not None:
                x = at
                if N.same(x, d) or N.same(x, -d):
                    if not up:
                        return False          # tol >= |d| or tol > |d|
                    return True if strict else "tie"
                return None
            if N.same(e, d):
                (le if not up else gt if strict else tie).add("+")
            elif N.same(e, -d):
                (le if not up else gt if strict else tie).add("-")
    if gt:
        return True
    if tie:
        return "tie"
    if le == {"+", "-"}:
        return False
    return None


def contradiction(I, N, p, pr, tol, fails):
    """A point of the path's region where |p - prob| > tol does not match the path's outcome, or None when none is found."""
    if any(k[0] not in ("near0",) for k in I.facts):
        return None
    polys = [p, pr, tol, N.sq if N.a is not None else ZERO] + list(I.bounds) + [k[1] for k in I.facts]
    free = {a for x in polys for a in x.atoms()}
    free |= {b for a in free if a.kind == "abs" for b in a.key.atoms()} | {b for a in free if a.kind == "pow" for b in a.key.atoms()}
    free = {atom_key(a) for a in free if a.kind not in ("abs", "pow", "const")}
    if any(a.kind not in ("amp", "sym", "angle") for a in free):
        return None
    rnd = random.Random(5)
    for _ in range(400):
        env = {a: rnd.uniform(-0.6, 0.6) if a.kind == "amp" else rnd.uniform(0.0, 1.0) if a is not tol_atom(tol) else rnd.choice((0.01, 0.1, 0.4)) if a.kind == "sym" else rnd.uniform(0.2, 3) for a in sorted(free, key=lambda a: a.id)}
        if N.a is not None:
            sq = dom.approx(N.sq, env)
            if sq is None:
                return None
            if sq <= 0:
                continue
            env[N.a] = sq ** 0.5
        vals = [(dom.approx(b, env), lo, hi) for b, (lo, hi, ne) in I.bounds.items()]
        near = [(dom.approx(k[1], env), k[2], v) for k, v in I.facts.items()]
        d = dom.approx(p - pr, env)
        if d is None or any(v is None for v, *_ in vals + near):
            return None
        eps = 1e-6
        if any((lo is not None and v < float(lo[0]) + eps) or (hi is not None and v > float(hi[0]) - eps) for v, lo, hi in vals):
            continue
        if any((abs(v + float(c)) < eps) != t for v, c, t in near):
            continue
        t = env[tol_atom(tol)]
        if abs(abs(d) - t) > eps and (abs(d) > t) != fails:
            return "the assertion %s at |p - prob| = %.4f, tol = %.4f (prob = %.4f)" % ("fails" if fails else "passes", abs(d), t, env[tol_atom(pr)])
    return None


def atom_key(a):
    return a.key if a.kind in ("cos", "sin") else a


def tol_atom(p):
    (m, c), = p.d.items()
    return m[0][0]


def abs_atom(e):
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "abs":
            return m[0][0].key
    return None


def words(n):
    return ["".join(w) for w in itertools.product("IXYZ", repeat=n)]


def obligations_C12(prog, tier):
    back(prog)
    obs = []

    def add(tag, word, qs, n, perm, **kw):
        obs.append(("%s:%s@%s" % (tag, word, "".join(map(str, qs))), QIS + "measure__body",
                    lambda: check_measure(prog, n, perm, word, qs, **kw)))

    def adda(tag, word, qs, n, perm, result, form, **kw):
        obs.append(("%s:%s@%s=%d" % (tag, word, "".join(map(str, qs)), result), QIS + "assertmeasurementprobability__" + form,
                    lambda: check_assert(prog, n, perm, word, qs, result, form=form, **kw)))
    for w in words(1) + words(2):
        for qs in itertools.permutations(range(2), len(w)):
            add("generic", w, qs, 2, [(0, 1)])
            for r in (0, 1):
                adda("assert", w, qs, 2, [(0, 1)], r, "body")
            for b in range(4):
                add("basis%d" % b, w, qs, 2, None, basis=b)
        adda("assert-ctl", w, (1, 0)[:len(w)], 2, None, 1, "ctl")
        adda("assert-ctl", w, (1, 0)[:len(w)], 2, None, 0, "ctl")
    for w in words(1):
        add("complex", w, (0,), 1, None, real=False)
        add("complex", w, (1,), 2, None, real=False)
    for w in words(2) if tier == "thorough" else ["XX", "XY", "YZ", "YY", "ZZ", "IX", "YI"]:
        add("complex", w, (0, 1), 2, None, real=False)
    for w in words(3):
        add("three", w, (2, 0, 1), 3, [(0, 2)], present={0, 3, 5, 6} if tier != "thorough" else None)
        add("basis", w, (2, 0, 1), 3, None, basis=5)
        adda("three", w, (2, 0, 1), 3, None, 1, "body", present={0, 3, 5})
    pres = [[("h", 0)], [("rx", TA, 1)], [("ry", TA, 0)], [("h", 0), ("mcx", [0], 1)]]
    for pre in pres:
        for w in words(2):
            add("after-" + S.seqname(pre), w, (0, 1), 2, None, basis=0, prefix=pre)
    for w in ("ZZZZ", "XXXX", "YYYY", "XYZX", "ZIIX", "IIIY", "YZIZ", "ZZZZZ", "XIYZX", "ZZZXZ", "IIZIZ"):
        k = len(w)
        qs = tuple(range(k))[::-1]
        full = (1 << k) - 1
        for s in ({0, full}, {5, 2, 7, full}):
            add("long%s" % sorted(s), w, qs, k, [(0, k - 1)], present=s)
            for r in (0, 1):
                adda("long%s" % sorted(s), w, qs, k, [(0, k - 1)], r, "body", present=s)
            adda("long-ctl%s" % sorted(s), w, qs, k, None, 1, "ctl", present=s)
    for n, at in S.wide_cases(tier):
        for w in ("Z", "X", "ZZ", "YX", "ZXZ"):
            for qs in (at[:len(w)], at[::-1][:len(w)]):
                add("wide%d" % n, w, qs, n, None, present={S.spread(x, at) for x in (0, 3, 5, 6)}, real=False)
                adda("wide%d" % n, w, qs, n, None, 1, "body", present={S.spread(x, at) for x in (0, 3, 5)})
    for ws, k in (("XX", 1), ("X", 2), ("", 1), ("Z", 0), ("ZZ", 3), ("IZY", 2), ("I", 2), ("II", 1), ("ZI", 1), ("Z" * 9, 8), ("X" * 8, 9), ("I" * 5, 1)):
        for form in ("measure__body", "assertmeasurementprobability__body", "assertmeasurementprobability__ctl"):
            obs.append(("lengths-differ:%s,%d" % (ws, k), QIS + form, lambda ws=ws, k=k, form=form: check_lengths(prog, ws, k, form)))
    F = dom.Fraction
    for st, actual in (((), F(0)), ((("x", 0),), F(1)), ((("h", 0),), F(1, 2))):
        for r in (0, 1):
            pa = actual if r else 1 - actual
            for w in ("Z", "ZI", "ZZ", "X" if st == (("h", 0),) else "IZ"):
                if w == "X" or w == "IZ":
                    q = F(0) if r else F(1)
                else:
                    q = pa
                for pr in (F(0), F(1, 4), F(1, 2), F(3, 4), F(1)):
                    for tol in (F(0), F(1, 4), F(1, 2), F(1), F(1, 1 << 20)):
                        if abs(q - pr) == tol and st and st[0][0] == "h":
                            continue            # rounding decides
                        obs.append(("assert-number:%s|%s=%d p=%s tol=%s" % (S.seqname(st), w, r, pr, tol), QIS + "assertmeasurementprobability__body",
                                    lambda st=st, w=w, r=r, pr=pr, tol=tol, q=q: check_assert_number(prog, st, w, r, pr, tol, abs(q - pr) > tol)))
    return obs


def check_assert_number(prog, prefix, word, result, pr, tol, fails):
    """The assertion about a known state with given numbers passes or fails as required."""
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, 2, None, None, 0, True, prefix)
        msg = B.call(I, RT + "string_create", B.cstr(I, "assertion text"))
        rv = B.call(I, RT + ("result_get_one" if result else "result_get_zero"))
        B.call(I, QIS + "assertmeasurementprobability__body", marshal(B, I, ("paulis", word), None), B.array(I, [0, 1][:len(word)]), rv,
               dom.ONE * dom._norm(pr), msg, dom.ONE * dom._norm(tol))
        return None

    def ok(o):
        if o.kind == "panic" and "assertion text" in str(o.detail):
            return None if fails else "fails although the deviation is within the tolerance"
        if o.kind == "return":
            return "passes although the deviation exceeds the tolerance" if fails else None
        return fine(o)
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=100)
    return judge(outs, comp, ok)


def check_lengths(prog, word, k, form):
    B = back(prog)

    def entry(I):
        alloc(B, I, max(k, len(word)))
        pa, qa = marshal(B, I, ("paulis", word), None), B.array(I, list(range(k)))
        if form == "measure__body":
            B.call(I, QIS + form, pa, qa)
        else:
            msg = B.call(I, RT + "string_create", B.cstr(I, "assertion text"))
            args = [pa, qa, B.call(I, RT + "result_get_zero"), A("sym", "prob"), msg, A("sym", "tol")]
            if form.endswith("body"):
                B.call(I, QIS + form, *args)
            else:
                B.call(I, QIS + form, B.array(I, []), B.tuple(I, [(x, 8) for x in args]))
        return "arrays of different lengths are accepted"
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()})
    return judge(outs, comp, lambda o: ("only the assertion itself fails" if "assertion text" in str(o.detail) else None) if o.kind == "panic" else fine(o))


# ------------------------------------------------------------------ C11: implicit allocation
def observer_instances(qs):
    """(name, function performing it, qubits named) for the observing instructions; each leaves |0..0> as it is."""
    a, b = qs[0], qs[1]
    out = []

    def one(name, extra, named):
        out.append((name, lambda B, I: B.call(I, QIS + name, *extra(B, I)), named))
    one("mz__body", lambda B, I: [a, 0], [a])
    one("mresetz__body", lambda B, I: [a, 0], [a])
    one("m__body", lambda B, I: [a], [a])
    one("reset__body", lambda B, I: [a], [a])
    one("measure__body", lambda B, I: [marshal(B, I, ("paulis", "ZZ"), None), B.array(I, [a, b])], [a, b])
    one("measure__body", lambda B, I: [marshal(B, I, ("paulis", "IZ"), None), B.array(I, [b, a])], [a])
    one("assertmeasurementprobability__body", lambda B, I: [
        marshal(B, I, ("paulis", "ZZ"), None), B.array(I, [a, b]), 0, ONE, B.call(I, RT + "string_create", B.cstr(I, "m")), dom.lift(dom.Fraction(1, 100), True)], [a, b])
    return out


def named_qubits(inst):
    out = []
    for a in inst[1]:
        if isinstance(a, tuple):
            if a[0] in ("ctl", "qubits"):
                out += list(a[1])
            elif a[0] == "rot":
                out.append(a[2])
            elif a[0] == "prot":
                out.append(a[3])
            elif a[0] == "pexp":
                out += list(a[3])
        elif isinstance(a, int):
            out.append(a)
    return out


def noop_on_nothing(inst):
    """Uncontrolled rotations about I act on nothing at all."""
    return inst[0] in ("r__body", "r__adj") and inst[1][0] == ("pauli", "I") or \
        inst[0] in ("r__ctl", "r__ctladj") and inst[1][0] == ("ctl", []) and inst[1][1][1] == "I"


def check_implicit(prog, have, inst, explicit=True, observer=None, present=None):
    """With `have` qubits existing in a generic state, the instruction names any ids: all of them exist afterwards, in order."""
    B = back(prog)
    named = named_qubits(inst) if inst is not None else observer[2]

    def entry(I):
        V = S.valuer(I)
        vec = {0: C1}
        if have:
            if explicit:
                alloc(B, I, have)
            else:
                B.call(I, QIS + "x__body", have - 1)
                B.call(I, QIS + "x__body", have - 1)
            vec = S.generic(B.sim, I, B.simref(I), present)
        n = max([have] + [q + 1 for q in named])
        if inst is not None:
            perform(B, I, inst, V)
            vec = inst[2](vec, V)
        else:
            observer[1](B, I)
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        live = sorted(B.sim.loc_of(I, B.simref(I)))
        if inst is not None and noop_on_nothing(inst):
            n = len(live)
        if live != list(range(n)):
            return "afterwards the qubits %s exist, required 0..%d" % (live, n - 1)
        if cnt != n:
            return "%s qubits are reported instead of %d" % (cnt, n)
        if inst is not None or not have:
            e = same_state(got, vec, True)
            if e:
                return e
        q = B.call(I, RT + "qubit_allocate")
        if q != n:
            return "after %d qubits have been used qubit_allocate returns id %s" % (n, q)
        got2, cnt2, dup = state(B, I)
        if dup:
            return dup
        return same_state(got2, got, False)
    return explore(prog, entry, steps=20000000)


def mixed_valid(steps):
    """Only releases of untouched qubits, no first use of an id while released ids wait to be handed out again (that mix the
    runtime does not promise), no such ids at the end."""
    live, used, top = set(), set(), 0
    for s in steps:
        if s[0] == "rel":
            if s[1] not in live or s[1] in used:
                return False
            live.discard(s[1])
        elif s[0] == "use":
            if s[1] not in live:
                if len(live) != top or s[1] < top:
                    return False
                live |= set(range(top, s[1] + 1))
                top = s[1] + 1
            used.add(s[1])
        else:
            for _ in range(1 if s[0] == "alloc" else s[1]):
                q = min(set(range(top + 1)) - live)
                live.add(q)
                used.discard(q)
                top = max(top, q + 1)
    return len(live) == top


def check_mixed(prog, steps):
    """steps: ("alloc",) | ("use", id) | ("array", k) | ("rel", id).  Explicit and implicit qubits never coincide."""
    B = back(prog)

    def entry(I):
        live, vec = set(), {0: C1}
        V = S.valuer(I)
        for s in steps:
            if s[0] == "alloc":
                q = B.call(I, RT + "qubit_allocate")
                if type(q) is not int or q in live or q > len(live):
                    return "qubit_allocate returns %s although %s are in use" % (q, sorted(live))
                live.add(q)
            elif s[0] == "array":
                arr = B.call(I, RT + "qubit_allocate_array", s[1])
                for i in range(s[1]):
                    q = B.get(I, B.call(I, RT + "array_get_element_ptr_1d", arr, i), B.ex(QIS + "h__body").locals[1])
                    if type(q) is not int or q in live or q > len(live):
                        return "qubit_allocate_array returns id %s although %s are in use" % (q, sorted(live))
                    live.add(q)
            elif s[0] == "rel":
                B.call(I, RT + "qubit_release", s[1])
                live.discard(s[1])
            else:
                B.call(I, QIS + "ry__body", V(A("angle", "u%d" % s[1])), s[1])
                vec = apply2(vec, matrix("ry", V(A("angle", "u%d" % s[1]))), s[1])
                if s[1] not in live:
                    live |= set(range(s[1] + 1))
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != len(live):
            return "%s qubits exist, required %d" % (cnt, len(live))
        return same_state(got, vec, True)
    return explore(prog, entry)


def obligations_C11(prog, tier):
    back(prog)
    obs = []

    def add(tag, inst, have, **kw):
        obs.append(("%s:%s" % (tag, iname(inst)), QIS + inst[0], lambda: check_implicit(prog, have, inst, **kw)))
    add("far", gate_instances((260, 0, 1), TA)[0], 0)
    for o in itertools.permutations(range(3)):
        for inst in gate_instances(o, TA) + (exp_instances(o, TA, ["X", "YZ", "ZI", "IX", "I"])):
            add("first-use", inst, 0)
            if o in ((0, 1, 2), (2, 1, 0)) or tier == "thorough":
                add("one-exists", inst, 1)
                add("two-exist", inst, 2, explicit=False)
    for inst in gate_instances((4, 0, 2), TA) + gate_instances((1, 5, 3), TA) + exp_instances((4, 0, 2), TA, ["Y", "XZ", "IZ"]) + exp_instances((0, 5, 3), TA, ["Y", "XZ", "IZ"]):
        add("gap", inst, 0)
        if tier == "thorough":
            add("gap-one-exists", inst, 1)
    for inst in gate_instances((0, 1, 2), TA):
        add("all-exist", inst, 3)
    for far in (34, 66, 130):
        for k, inst in enumerate(gate_instances((far, 0, 1), TA)):
            if far == 66 or k in (0, 9):
                add("far", inst, 0)
        for inst in gate_instances((0, far, 2), TA)[11::9] + exp_instances((far, 0, 1), TA, ["X", "YZ"])[:2]:
            add("far", inst, 0)
    for o in [(0, 1), (1, 0), (3, 1), (1, 4), (2, 0)]:
        for ob in observer_instances(o):
            for have in (0, 1):
                obs.append(("observe%d:%s@%s" % (have, ob[0], ob[2]), QIS + ob[0],
                            lambda ob=ob, have=have: check_implicit(prog, have, None, observer=ob, present={0})))
    zero = [p for p in prog.by_path if p.startswith("qir_backend::") and p.endswith("::qubit_is_zero")]
    for p in zero:
        for have, q in ((0, 0), (0, 2), (1, 0), (1, 2)):
            obs.append(("observe%d:qubit_is_zero@%d" % (have, q), p, lambda p=p, have=have, q=q: check_implicit(
                prog, have, None, observer=(p, lambda B, I: B.pub(I, p, q), [q]), present={0})))
    al = [("alloc",), ("use", 0), ("use", 1), ("use", 2), ("use", 4), ("array", 2)]
    for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for steps in itertools.product(al, repeat=k):
            obs.append(("mixed:" + ";".join("-".join(map(str, s)) for s in steps), RT + "qubit_allocate", lambda steps=steps: check_mixed(prog, steps)))
    rl = [("alloc",), ("use", 0), ("use", 1), ("use", 2), ("rel", 0), ("rel", 1), ("rel", 2)]
    starts = [(("alloc",), ("alloc",)), (("array", 3),), (("use", 1),), (("alloc",), ("use", 2))]
    for st in starts:
        for k in (2, 3) + ((4,) if tier == "thorough" else ()):
            for steps in itertools.product(rl, repeat=k):
                steps = st + steps
                if any(s[0] == "rel" for s in steps) and mixed_valid(steps):
                    obs.append(("released:" + ";".join("-".join(map(str, s)) for s in steps), RT + "qubit_release",
                                lambda steps=steps: check_mixed(prog, steps)))
    return obs


# ------------------------------------------------------------------ C02: observers of the backend
def check_backend_observer(prog, name, prefix, present=None, results=(), reentrant=True):
    """Text dump, snapshot and is-zero query of the backend see every gate issued before."""
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, 2, [(0, 1)], present, None, True, prefix)
        for i, b in results:
            B.call(I, RT + "write_result", b, i)
        at = len(I.trace)
        if name == "dump":
            B.call(I, QIS + "dumpmachine__body", 0)
            ev = recorded(B, I, at)
            t = StrV()
            for e in ev:
                if e[1] != "Stdout":
                    return "the state is dumped to %s" % e[1]
                t = t + e[2]
            if results:
                # one line with the results, then the state
                p = t.parts
                if not p or not isinstance(p[0], str) or "\n" not in "".join(x for x in p if isinstance(x, str)):
                    return "the dump does not start with a line of results"
                i = next(k for k, x in enumerate(p) if isinstance(x, str) and "\n" in x)
                t = StrV((p[i].split("\n", 1)[1],) + p[i + 1:])
            e = S.same_dump(t, vec)
            if e:
                return e
        elif name == "capture":
            v = B.pub(I, "qir_backend::capture_quantum_state")
            got, cnt, dup = S.from_state(I, v)
            if dup:
                return dup
            if cnt != 2:
                return "the snapshot reports %s qubits" % cnt
            e = same_state(got, vec, True)
            if e:
                return "snapshot: " + e
        else:
            p1 = S.prob_odd(vec, [0])
            v = I.truth(B.pub(I, "qir_backend::qubit_is_zero", 0))
            q1 = N(p1)
            if q1.is_const() and v != (q1.const() == 0) or v and not q1.is_const():
                return "is-zero reports %s where the probability of one is %r" % (v, q1)
        if B.borrowed(I):
            return "the thread's state is still borrowed"
        if any(t[0] == "random" for t in I.trace):
            return "an observation draws a random number"
        got, cnt, dup = state(B, I)
        return dup or same_state(got, vec, True)
    return explore(prog, entry)


def obligations_C02(prog, tier):
    back(prog)
    cls = S.pending_classes(prog)
    obs = []
    for s in cls:
        for s2 in cls:
            if len(s) + len(s2) > (6 if tier == "thorough" else 3):
                continue
            pre = S.on(s, 0, "p") + S.on(s2, 1, "q")
            for name, fn in (("dump", QIS + "dumpmachine__body"), ("capture", "qir_backend::capture_quantum_state"), ("zero", "qir_backend::qubit_is_zero")):
                obs.append(("backend:%s|%s" % (S.seqname(pre), name), fn, lambda name=name, pre=pre: check_backend_observer(prog, name, pre)))
            obs.append(("backend:%s|dump with results" % S.seqname(pre), QIS + "dumpmachine__body",
                        lambda pre=pre: check_backend_observer(prog, "dump", pre, results=((1, True),))))
    return obs


# ------------------------------------------------------------------ C13: results
READS = [("qis", QIS + "read_result__body"), ("rt", RT + "read_result")]


def recorded(B, I, since):
    """Text written to standard output since a trace position, and the recorder's buffer."""
    return [t for t in I.trace[since:] if t[0] == "write"]


def text_of(events):
    out = ""
    for e in events:
        t = e[2]
        s = t.lit() if isinstance(t, StrV) else t
        if s is None:
            raise Unsupported("symbolic output")
        out += s if isinstance(s, str) else s.decode()
    return out


BLEG = "qir_backend::legacy_output::__quantum__rt__result_record_output"


def check_results(prog, writes, reads, via):
    """writes: [(kind, id, bit)], kind in write / mz / mresetz; then every id in reads yields the last bit stored (or zero)."""
    B = back(prog)

    def entry(I):
        alloc(B, I, 2)
        want = {}
        for kind, i, b in writes:
            if kind == "write":
                B.call(I, RT + "write_result", b, i)
            else:
                B.call(I, QIS + "reset__body", 0)
                if b:
                    B.call(I, QIS + "x__body", 0)
                B.call(I, QIS + kind + "__body", 0, i)
            want[i] = b
        for i in reads:
            if via in ("record", "legacy"):
                at = len(I.trace)
                if via == "record":
                    B.call(I, RT + "result_record_output", i, 0)
                else:
                    B.pub(I, BLEG, i)
                t = text_of(recorded(B, I, at))
                exp = ("OUTPUT\tRESULT\t%d\n" if via == "record" else "RESULT\t%d\n") % int(want.get(i, False))
                if t != exp:
                    return "recording result %d prints %r, required %r" % (i, t, exp)
            else:
                v = I.truth(B.call(I, dict(READS)[via], i))
                if v != bool(want.get(i, False)):
                    return "result %d reads %s, stored %s" % (i, v, bool(want.get(i, False)))
        if B.borrowed(I):
            return "the thread's state is still borrowed"
        return None
    return explore(prog, entry)


def check_outcome_stored(prog, kind, i, others, n=2):
    """The value stored is the outcome the state collapsed to."""
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, n, [(0, 1)], None, None, True, ())
        B.call(I, QIS + kind, 0, i)
        for j in others:
            B.call(I, RT + "write_result", True, j)
            B.call(I, RT + "write_result", False, j + 1)
        v = I.truth(B.call(I, QIS + "read_result__body", i))
        p1, p0 = S.prob_odd(vec, [0]), S.prob_even(vec, [0])
        if S.infeasible(I, N):
            return None
        e = S.check_outcome(I, N, p1, p0, v)
        if e:
            return e
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        w = S.project(vec, [0], v)
        if kind.startswith("mresetz") and v:
            w = permute(w, lambda k: k ^ 1)
        e = S.same_collapsed(N, got, w, p1 if v else p0)
        if e:
            return e
        v2 = I.truth(B.call(I, RT + "read_result", i))
        return None if v2 == v else "reading result %d twice gives different values" % i
    return explore(prog, entry)


def check_dynamic(prog, kind):
    """A result returned by a measurement equals exactly the constant that matches the outcome, prints and records accordingly."""
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, 2, None, None, None, True, ())
        if kind == "m":
            v = B.call(I, QIS + "m__body", 0)
        else:
            v = B.call(I, QIS + "measure__body", marshal(B, I, ("paulis", "Z"), None), B.array(I, [0]))
        one = I.truth(B.call(I, RT + "result_equal", v, B.call(I, RT + "result_get_one")))
        zero = I.truth(B.call(I, RT + "result_equal", v, B.call(I, RT + "result_get_zero")))
        if one == zero:
            return "a returned result equals %s of the constants" % ("both" if one else "none")
        if not I.truth(B.call(I, RT + "result_equal", v, v)):
            return "a result does not equal itself"
        e = S.check_outcome(I, N, S.prob_odd(vec, [0]), S.prob_even(vec, [0]), one)
        if e:
            return e
        at = len(I.trace)
        B.call(I, RT + "result_record_output", v, B.cstr(I, "lbl"))
        t = text_of(recorded(B, I, at))
        if t != "OUTPUT\tRESULT\t%d\tlbl\n" % int(one):
            return "recording the result prints %r" % t
        if BLEG in prog.by_path:
            at = len(I.trace)
            B.pub(I, BLEG, v)
            t = text_of(recorded(B, I, at))
            if t != "RESULT\t%d\n" % int(one):
                return "recording the result in the legacy form prints %r" % t
        if B.has(RT + "result_to_string"):
            s = B.text(I, B.call(I, RT + "result_to_string", v))
            if s != ("One" if one else "Zero"):
                return "the result prints as %r" % s
        return None
    return explore(prog, entry)


def check_constants(prog):
    B = back(prog)

    def entry(I):
        one, zero = B.call(I, RT + "result_get_one"), B.call(I, RT + "result_get_zero")
        for a, b, w in ((one, one, True), (zero, zero, True), (one, zero, False), (zero, one, False)):
            if I.truth(B.call(I, RT + "result_equal", a, b)) != w:
                return "comparing the constants gives %s, required %s" % (not w, w)
        for v, t in ((one, "One"), (zero, "Zero")):
            s = B.text(I, B.call(I, RT + "result_to_string", v))
            if s != t:
                return "a constant prints as %r, required %r" % (s, t)
        return None
    return explore(prog, entry)


def obligations_C13(prog, tier):
    back(prog)
    obs = []
    ids = [0, 1, 2, 7, 63, 64, 65, 130] if tier != "thorough" else [0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 65, 127, 128, 130, 200]
    reads = sorted(set(ids) | {5, 66, 131})
    vias = ["qis", "rt", "record"]
    leg = ["legacy"] if BLEG in prog.by_path else []

    def add(tag, writes, via, rd):
        obs.append(("%s:%s|%s" % (tag, ",".join("%s%d=%d" % (k, i, int(b)) for k, i, b in writes), via), RT + "write_result",
                    lambda: check_results(prog, writes, rd, via)))
    for a in ids:
        for b in (True, False):
            for k in ("write", "mz", "mresetz"):
                for via in vias + leg:
                    add("single", [(k, a, b)], via, reads)
    for a, b in itertools.permutations(ids, 2):
        for x, y in itertools.product((True, False), repeat=2):
            for k1, k2 in (("write", "write"), ("mz", "mresetz"), ("mresetz", "write"), ("mz", "mz")) if tier == "thorough" else (("mz", "mresetz"), ("write", "mz")):
                add("two", [(k1, a, x), (k2, b, y)], vias[(a + b + x + y) % 3], reads)
                if leg and a < b:
                    add("two", [(k1, a, x), (k2, b, y)], "legacy", reads)
    for a, b, c in itertools.permutations([0, 1, 2, 64], 3):
        for v in itertools.product((True, False), repeat=3):
            add("three", [("mz", a, v[0]), ("write", b, v[1]), ("mresetz", c, v[2])], vias[(a + b + c) % 3], reads[:6] + [64, 65])
    for a in (255, 256, 300, 1024, 4096, 65536, 70000):   # far ids
        for k in ("write", "mz", "mresetz"):
            for b in (True, False):
                add("far", [("write", 1, True), (k, a, b), ("write", 3, True)], "qis", [a, 1, 2, 3, a - 1])
        for via in vias + leg:
            add("far", [("mz", a, True)], via, [a, a - 1, 0, a & 255])
    for a in (0, 1, 64):                       # overwriting
        for x, y in itertools.product((True, False), repeat=2):
            for k1, k2 in itertools.product(("write", "mz", "mresetz"), repeat=2):
                add("overwrite", [(k1, a, x), ("mz", 3, True), (k2, a, y)], "qis", [a, 3, 2])
    for via in ("qis", "rt"):
        obs.append(("unwritten|" + via, RT + "read_result", lambda via=via: check_results(prog, [], reads, via)))
    for kind in ("mz__body", "mresetz__body"):
        for i in (0, 1, 5, 64):
            for others in ([], [i + 1], [i + 70], [0] if i > 1 else [2]):
                obs.append(("outcome:%s->%d,%s" % (kind, i, others), QIS + kind, lambda kind=kind, i=i, others=others: check_outcome_stored(prog, kind, i, others)))
    for k in ("m", "measure"):
        obs.append(("dynamic:" + k, QIS + k + "__body", lambda k=k: check_dynamic(prog, k)))
    obs.append(("constants", RT + "result_equal", lambda: check_constants(prog)))
    return obs


# ------------------------------------------------------------------ C14: reset
def check_reset(prog, kind, n, q, perm, present=None, basis=None, real=True, prefix=(), rid=3, before=()):
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, n, perm, present, basis, real, prefix)
        for i, b in before:
            B.call(I, RT + "write_result", b, i)
        if kind == "reset":
            B.call(I, QIS + "reset__body", q)
            v = None
        else:
            B.call(I, QIS + "mresetz__body", q, rid)
            v = I.truth(B.call(I, QIS + "read_result__body", rid))
        if draws(I) > 1:
            return "%d random draws" % draws(I)
        p1, p0 = S.prob_odd(vec, [q]), S.prob_even(vec, [q])
        if S.infeasible(I, N):
            return None
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != n:
            return "%s qubits exist afterwards instead of %d" % (cnt, n)
        if any(k >> q & 1 for k in got):
            return "the qubit is not zero afterwards: %s" % sorted(got)
        reasons = []
        for res in ((True, False) if v is None else (v,)):
            pr = N(p1 if res else p0)
            if pr.is_const() and pr.const() == 0:
                reasons.append("outcome %s has probability zero" % res)
                continue
            w = S.project(vec, [q], res)
            if res:
                w = permute(w, lambda k: k ^ (1 << q))
            e = S.same_collapsed(N, got, w, p1 if res else p0) or S.check_outcome(I, N, p1, p0, res)
            if e is None:
                return None
            reasons.append(e)
        return "; ".join(reasons)[:600]
    return explore(prog, entry)


def obligations_C14(prog, tier):
    back(prog)
    obs = []

    def add(tag, kind, n, q, perm, **kw):
        obs.append(("%s:%s%d/%d%s" % (tag, kind, q, n, "p" if perm else ""), QIS + ("reset__body" if kind == "reset" else "mresetz__body"),
                    lambda: check_reset(prog, kind, n, q, perm, **kw)))
    for kind in ("reset", "mresetz"):
        for n in (1, 2, 3):
            for q in range(n):
                for perm in (None, [(0, n - 1)]):
                    add("generic", kind, n, q, perm, real=n < 3 or tier == "thorough")
                    if n > 1:
                        for present in ({0, 3}, {1, 2}, {0, 2}, {1, 3}) + (({0, 5, 6}, {1, 2, 4, 7}) if n == 3 else ()):
                            add("sparse%s" % sorted(present), kind, n, q, perm, present=present, real=False)
                for b in range(1 << n):
                    add("basis%d" % b, kind, n, q, None, basis=b)
        cls = S.pending_classes(prog)
        for s in cls:
            for q in (0, 1):
                add("pending-" + S.seqname(s), kind, 2, q, None, prefix=S.on(s, 0, "p"))
            for s2 in cls:
                if len(s) + len(s2) <= (3 if tier != "thorough" else 6):
                    pre = S.on(s, 0, "p") + S.on(s2, 1, "q")
                    add("pending-" + S.seqname(pre), kind, 2, 0, None, prefix=pre)
        for n in (4, 5, 6, 9):
            for q in (0, n // 2, n - 1):
                full = (1 << n) - 1
                for s in ({0, full}, {full}, {1 << q, full - (1 << q), 2}):
                    add("more%s" % sorted(s), kind, n, q, [(0, n - 1)], present=s, real=False)
        for n, at in S.wide_cases(tier):
            for q in at:
                for bs in ((0, 3, 5, 6), (7,), (0, 7)):
                    add("wide%s" % (bs,), kind, n, q, None, present={S.spread(x, at) for x in bs}, real=False)
        for rid in (0, 1, 2, 64) if kind == "mresetz" else (0,):
            for before in (((rid, True),), ((rid, False),), ((rid, True), (rid + 1, True)), ((0, True), (1, True), (2, True), (66, False)), ((70, True),)):
                t = "result%d-after%s-" % (rid, ",".join("%d=%d" % x for x in before))
                for n in (1, 2):
                    add(t, kind, n, n - 1, None, real=False, rid=rid, before=before)
                for b in (0, 1):
                    add(t + "basis%d" % b, kind, 1, 0, None, basis=b, rid=rid, before=before)
        if kind == "mresetz":
            for rid in (0, 1, 2, 63, 64, 65, 127, 128, 200):
                for n in (1, 2):
                    add("result%d" % rid, kind, n, 0, None, real=False, rid=rid)
                for b in (0, 1):
                    add("result%d-basis%d" % (rid, b), kind, 1, 0, None, basis=b, rid=rid)
        for pre in ([("h", 0), ("mcx", [0], 1)], [("ry", TA, 0), ("mcx", [0], 1), ("h", 1)], [("rx", TA, 0)]):
            for q in (0, 1):
                add("prepared-" + S.seqname(pre), kind, 2, q, None, basis=0, prefix=pre)
    return obs


# ------------------------------------------------------------------ C15: initialization
def use_up(B, I, how):
    """Leave traces of an execution behind."""
    V = S.valuer(I)
    for h in how:
        if h == "alloc":
            B.call(I, RT + "qubit_allocate")
        elif h == "array":
            B.call(I, RT + "qubit_allocate_array", 3)
        elif h == "release":
            B.call(I, RT + "qubit_release", 0)
        elif h == "generic":
            S.generic(B.sim, I, B.simref(I))
        elif h == "pending-h":
            B.call(I, QIS + "h__body", 0)
        elif h == "pending-rx":
            B.call(I, QIS + "rx__body", V(TA), 1)
        elif h == "pending-ry":
            B.call(I, QIS + "ry__body", V(TA), 0)
        elif h == "x":
            B.call(I, QIS + "x__body", 0)
        elif h == "swap":
            B.call(I, QIS + "swap__body", 0, 2)
        elif h == "implicit":
            B.call(I, QIS + "x__body", 3)
        elif h == "result":
            B.call(I, RT + "write_result", True, 0)
            B.call(I, RT + "write_result", True, 70)
        elif h == "mz":
            B.call(I, QIS + "x__body", 0)
            B.call(I, QIS + "mz__body", 0, 1)
        elif h.startswith("res-"):
            B.call(I, RT + "write_result", True, int(h[4:]))
        elif h.startswith("array-"):
            B.call(I, RT + "qubit_allocate_array", int(h[6:]))
        elif h == "seed":
            f = [p for p in B.P.by_path if p == "qir_backend::set_rng_seed"]
            if not f:
                raise MissingAnchor("no function qir_backend::set_rng_seed")
            B.pub(I, f[0], A("usym", "seed"))
        elif h == "init":
            B.call(I, RT + "initialize", 0)
        else:
            raise KeyError(h)


def erase(I, v):
    """A comparable rendering of an abstract value."""
    if isinstance(v, Agg):
        return (v.name if v.ty is not None and v.ty.k == "enum" else "", tuple(erase(I, x) for x in v.f))
    if isinstance(v, VecV):
        return ("seq", tuple(erase(I, x) for x in v.items))
    if isinstance(v, NatV) and v.kind == "Box":
        return ("box", erase(I, I.load(v.d)) if isinstance(v.d, Ref) else repr(v.d))
    if isinstance(v, NatV):
        return (v.kind, repr(v.d))
    return repr(v)


def rng_of(B, I):
    """The generator inside the thread's simulator."""
    st = I.load(B.simref(I))
    out = []

    def walk(v):
        if isinstance(v, NatV) and v.kind == "Rng":
            out.append(v)
        elif isinstance(v, NatV) and v.kind in ("Box", "RefCell", "Cell"):
            for x in v.d if isinstance(v.d, tuple) else (v.d,):
                if isinstance(x, Ref):
                    walk(I.load(x))
                elif isinstance(x, (NatV, Agg)):
                    walk(x)
        elif isinstance(v, Agg):
            for x in v.f:
                walk(x)
    walk(st)
    if len(out) != 1:
        raise Unsupported("%d generators in the simulator" % len(out))
    return out[0]


def check_init(prog, how, then):
    """After initialize every later operation behaves as on a fresh thread with the same generator."""
    B = back(prog)

    def entry(I):
        fresh = None
        use_up(B, I, ["seed"] + list(how))
        r0 = rng_of(B, I)
        at = len(I.trace)
        B.call(I, RT + "initialize", 0)
        r1 = rng_of(B, I)
        if r1.d != r0.d:
            return "initialization replaces the random generator"
        if any(t[0] == "random" for t in I.trace[at:]):
            return "initialization consumes random draws"
        if B.borrowed(I):
            return "the thread's state is still borrowed"
        V = S.valuer(I)
        live = sorted(B.sim.loc_of(I, B.simref(I)))
        if live:
            return "qubits %s still exist after initialization" % live
        got, cnt, dup = state(B, I)
        e = dup or same_state(got, {0: C1}, False)
        if e:
            return "after initialization: " + e
        if cnt != 0:
            return "%s qubits are reported after initialization" % cnt
        if then == "alloc":
            for k in range(3):
                q = B.call(I, RT + "qubit_allocate")
                if q != k:
                    return "the first qubits after initialization have ids starting %s" % q
            vec, n = {0: C1}, 3
        elif then == "implicit":
            B.call(I, QIS + "h__body", 2)
            vec, n = apply2({0: C1}, matrix("h"), 2), 3
        elif then == "implicit-all":
            for k in (1, 0, 3):
                B.call(I, QIS + "h__body", k)
            vec, n = {0: C1}, 4
            for k in (1, 0, 3):
                vec = apply2(vec, matrix("h"), k)
        elif then == "read":
            for k in (0, 1, 2, 63, 64, 70):
                if I.truth(B.call(I, QIS + "read_result__body", k)):
                    return "result %d of the earlier execution is still set" % k
            return None
        elif then == "dynamic":
            for k in (1, 0):
                at = len(I.trace)
                B.call(I, RT + "result_record_output", k, 0)
                t = text_of(recorded(B, I, at))
                if t != "OUTPUT\tRESULT\t%d\n" % k:
                    return "recording the constant %d prints %r" % (k, t)
            return None
        elif then == "measure":
            B.call(I, QIS + "h__body", 0)
            at = len(I.trace)
            B.call(I, QIS + "mz__body", 0, 0)
            dr = [t for t in I.trace[at:] if t[0] == "random"]
            if len(dr) != 1:
                return "%d draws for one measurement" % len(dr)
            g = dr[0][2]
            if not (isinstance(g, NatV) and g.d == r0.d):
                return "the draw after initialization comes from another generator"
            return None
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        if cnt != n:
            return "%s qubits exist, required %d" % (cnt, n)
        return same_state(got, vec, True)
    return explore(prog, entry)


def obligations_C15(prog, tier):
    back(prog)
    obs = []
    al = ["alloc", "array", "implicit", "x", "pending-h", "pending-rx", "pending-ry", "swap", "result", "mz", "init"]
    hows = [()] + [(a,) for a in al] + list(itertools.product(al, repeat=2))
    hows += [("array", "generic"), ("array", "release"), ("array", "generic", "pending-h", "pending-rx"), ("array", "release", "alloc", "mz"),
             ("array", "swap", "release"), ("implicit", "generic", "result", "pending-ry"), ("array", "generic", "swap", "result")]
    hows += [("res-%d" % k,) for k in (0, 1, 2, 63, 64, 70)] + [("res-0", "res-1"), ("res-2", "init", "res-0"), ("array-66",), ("array-66", "res-64", "pending-h")]
    if tier == "thorough":
        hows += list(itertools.product(al, repeat=3))
    for how in hows:
        for then in ("alloc", "implicit", "implicit-all", "read", "dynamic", "measure"):
            obs.append(("%s>%s" % (",".join(how) or "-", then), RT + "initialize", lambda how=how, then=then: check_init(prog, how, then)))
    return obs


# ------------------------------------------------------------------ C06: one seedable generator
def c06_operations():
    ops = []
    for inst in gate_instances((0, 1, 2), TA, (0, 1)) + exp_instances((0, 1, 2), TA, ["X", "YZ"]):
        ops.append(("gate:" + iname(inst), lambda B, I, inst=inst: perform(B, I, inst, S.valuer(I)), 0))
    ops.append(("mz", lambda B, I: B.call(I, QIS + "mz__body", 0, 0), 1))
    ops.append(("m", lambda B, I: B.call(I, QIS + "m__body", 0), 1))
    ops.append(("mresetz", lambda B, I: B.call(I, QIS + "mresetz__body", 0, 0), 1))
    ops.append(("reset", lambda B, I: B.call(I, QIS + "reset__body", 0), 1))
    ops.append(("measure", lambda B, I: B.call(I, QIS + "measure__body", marshal(B, I, ("paulis", "XZ"), None), B.array(I, [0, 1])), 1))
    ops.append(("release", lambda B, I: B.call(I, RT + "qubit_release", 0), 1))
    ops.append(("allocate", lambda B, I: B.call(I, RT + "qubit_allocate"), 0))
    ops.append(("allocate-array", lambda B, I: B.call(I, RT + "qubit_allocate_array", 2), 0))
    ops.append(("implicit", lambda B, I: B.call(I, QIS + "h__body", 5), 0))
    ops.append(("initialize", lambda B, I: B.call(I, RT + "initialize", 0), 0))
    ops.append(("state", lambda B, I: state(B, I), 0))
    ops.append(("dump", lambda B, I: B.sim.call(I, B.simref(I), "dump"), 0))
    ops.append(("assert", lambda B, I: B.call(I, QIS + "assertmeasurementprobability__body", marshal(B, I, ("paulis", "XZ"), None), B.array(I, [0, 1]),
                                             0, A("sym", "p"), B.call(I, RT + "string_create", B.cstr(I, "m")), A("sym", "tol")), 0))
    return ops


def check_draws(prog, op, exact, basis=None, reseed=False):
    B = back(prog)

    def entry(I):
        use_up(B, I, ["seed"])
        g = rng_of(B, I)
        if not (g.d[0] == "seed_from_u64" and g.d[1] == A("usym", "seed")):
            return "setting the seed leaves a generator that is not derived from the seed: %r" % (g.d,)
        if reseed:
            B.pub(I, "qir_backend::set_rng_seed", 77)
            g = rng_of(B, I)
            if not (g.d[0] == "seed_from_u64" and g.d[1] == 77):
                return "setting the seed again has no effect"
        alloc(B, I, 3)
        if basis is None:
            S.generic(B.sim, I, B.simref(I), {0, 1, 2, 3}, real=True)
        at = len(I.trace)
        op(B, I)
        ev = I.trace[at:]
        dr = [t for t in ev if t[0] == "random"]
        for t in dr:
            if not (isinstance(t[2], NatV) and t[2].d == g.d):
                return "a random draw comes from %r, not from the seeded generator %r" % (t[2], g.d)
        if len(dr) > exact:
            return "%d random draws, at most %d expected" % (len(dr), exact)
        if rng_of(B, I).d != g.d:
            return "the operation replaces the seeded generator"
        return None

    def ok(o):
        if o.kind == "panic" and o.interp.P is not None and "assert" in str(o.detail):
            return None
        return o.value if o.kind == "return" else None if o.kind == "panic" else fine(o)
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=200)
    return judge(outs, comp, ok)


ENTROPY = ("rand::rngs::thread::rng", "rand::rng", "rand::thread_rng", "rand::random", "from_os_rng", "from_entropy", "getrandom", "OsRng", "SysRng", "ThreadRng")
AMBIENT = ("std::time::", "std::process::id", "std::thread::current", "std::env::", "std::fs::", "std::net::", "std::thread::current::", "RandomState",
           "std::sys::random", "std::hash::random")


def source_hit(path, tys, pats):
    for p in pats:
        if path and (path == p or (p in path and not p.startswith("rand::"))):
            return p
        for t in tys:
            if p in t:
                return p
    return None


def api_roots(prog, backend=True):
    """Public operations whose result is a quantum result: the simulator's methods and the backend's functions."""
    roots = []
    for f in prog.fns:
        if f.p.startswith("quantum_sparse_sim::") and "{" not in f.p and "test" not in f.p:
            roots.append(f)
        elif f.p.startswith("qir_backend::") and "__rust_std_internal" not in f.p and "{" not in f.p and "test" not in f.p:
            roots.append(f)
    return roots


WALKS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if",
         "union", "intersection", "difference", "symmetric_difference", "extend", "from_iter", "hash_one", "build_hasher"}
SETTLES = {"any", "all", "count", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "BTreeMap", "BTreeSet", "BinaryHeap"}


def random_walk(path, tys):
    """The call reads a randomly seeded hash table in its order (membership and lookups do not)."""
    last = (path or "").rsplit("::", 1)[-1]
    return last in WALKS and any("RandomState" in t for t in (tys[:1] if last in ("iter", "into_iter", "retain", "drain") else tys))


def check_ambient(prog):
    import cg
    G = cg.Graph(prog)
    seen, via = G.reach(api_roots(prog))
    unk = None
    for f in seen:
        if f.crate not in ("quantum_sparse_sim", "qir_backend", "qir_stdlib"):
            continue
        walks, settled = None, False
        for bi, line, g, path, ind, bodies in G.calls(f):
            tys = [a.s for a in (g.args if g is not None else ())]
            t = f.blocks[bi][1]
            if t[0] == "call" and t[2]:
                a = t[2][0]
                tys.append(f.locals[a[1][0]].s if a[0] in ("c", "m") and not a[1][1] else "")
            last = (path or "").rsplit("::", 1)[-1]
            settled = settled or last in SETTLES or last.startswith("sort") or (last in ("collect", "extend", "from_iter") and "BTree" in " ".join(tys))
            h = source_hit(path, tys, [p for p in AMBIENT if p != "RandomState"])
            if h:
                return Result(BAD, "%s, reachable from the quantum operations, calls %s (%s): its result can differ between runs with the same seed [%s]" % (
                    f.p, path, h, G.chain(via, f)[:400]), len(seen), {x.p for x in seen if x.local}, f.p)
            if random_walk(path, tys) and not (last in ("extend", "from_iter") and not any("RandomState" in x for x in tys[1:])):
                walks = walks or (path, line)
        if walks is not None:
            if settled:
                unk = unk or "%s line %s walks a randomly seeded hash table; whether the order matters there is not decided" % (f.p, walks[1])
                continue
            return Result(BAD, "%s line %s walks a randomly seeded hash table (%s): the order differs between runs with the same seed [%s]" % (
                f.p, walks[1], walks[0], G.chain(via, f)[:400]), len(seen), {f.p}, f.p)
    if unk:
        return Result(UNK, unk, len(seen), {x.p for x in seen if x.local})
    return Result(OK, "", len(seen), {x.p for x in seen if x.local})


def check_entropy_sites(prog):
    """Only the construction of an unseeded simulator may consult an entropy source."""
    import cg
    G = cg.Graph(prog)
    L = S.lab_cache(prog)
    allowed = set()

    def entry(I):
        r = I.mkref(I.run_body(L.fn("new"), [models.opt(None)]), "sim")
        L.call(I, r, "take_rng")
        return None
    outs, comp = interp.explore(prog, models, entry)
    for o in outs:
        if o.kind != "return":
            return Result(UNK, "the construction of an unseeded simulator was not followed to its end: %s %s" % (o.kind, o.detail), len(outs))
        allowed |= o.interp.visited
    seen, via = G.reach(api_roots(prog))
    for f in seen:
        if f.crate not in ("quantum_sparse_sim", "qir_backend"):
            continue
        for bi, line, g, path, ind, bodies in G.calls(f):
            tys = [a.s for a in (g.args if g is not None else ())]
            h = source_hit(path, [], ENTROPY)
            if h and f.p not in allowed and not any(f.p.startswith(a) for a in allowed):
                return Result(BAD, "%s consults the entropy source %s although it is not part of constructing an unseeded simulator [%s]" % (
                    f.p, path, G.chain(via, f)[:400]), len(seen), {x.p for x in seen if x.local}, f.p)
    return Result(OK, "", len(seen), {x.p for x in seen if x.local})


def check_given_rng(prog):
    """A simulator built with a generator uses that generator; one built without draws entropy exactly at construction."""
    L = S.lab_cache(prog)

    def entry(I):
        r = I.mkref(I.run_body(L.fn("new"), [models.some(NatV("Rng", ("given",)))]), "sim")
        L.call(I, r, "allocate")
        L.call(I, r, "h", 0)
        at = len(I.trace)
        L.call(I, r, "measure", 0)
        dr = [t for t in I.trace[at:] if t[0] == "random"]
        if len(dr) != 1 or not isinstance(dr[0][2], NatV) or dr[0][2].d != ("given",):
            return "the draw does not come from the given generator"
        t = L.call(I, r, "take_rng")
        t = I.deref(t)
        if not (isinstance(t, NatV) and t.d == ("given",)):
            return "take_rng does not hand back the given generator"
        return None
    return explore(prog, entry)


def obligations_C06(prog, tier):
    back(prog)
    obs = []
    for name, op, exact in c06_operations():
        obs.append(("draws:" + name, name, lambda op=op, exact=exact: check_draws(prog, op, exact)))
        if exact or tier == "thorough":
            obs.append(("draws-reseeded:" + name, name, lambda op=op, exact=exact: check_draws(prog, op, exact, reseed=True)))
            obs.append(("draws-zero:" + name, name, lambda op=op, exact=exact: check_draws(prog, op, exact, basis=0)))
    obs.append(("given-generator", "sparsesim QuantumSim::new", lambda: check_given_rng(prog)))
    obs.append(("ambient-sources", "call graph of the simulator and backend", lambda: check_ambient(prog)))
    obs.append(("entropy-sites", "call graph of the simulator and backend", lambda: check_entropy_sites(prog)))
    return obs


# ------------------------------------------------------------------ C16: re-entry
def guard_sites(prog):
    import cg
    G = cg.Graph(prog)
    cells = cg.cell_types(prog)

    def own(f):
        out = {}
        for b in f.blocks or ():
            if b and b[1][0] == "call":
                a = cg.acquisition(cells, b[1], f)
                if a:
                    out[(a[0], a[1])] = "directly at line %s of %s" % (b[2], f.p)
        return out
    T = G.transitive(own)
    return G, cells, T


def check_reentry(prog, G, cells, T, f):
    import cg
    L = cg.live_guards(f, cells)
    n = 0
    for bi, line, g, path, ind, bodies in G.calls(f):
        held = set(L.get(bi, ()))
        t = f.blocks[bi][1]
        if t[0] == "call":
            a = cg.acquisition(cells, t, f)
            if a:
                n += 1
                for c, ex in held:
                    if c == a[0] and (ex or a[1]):
                        return Result(BAD, "%s line %s borrows %s while it still holds it" % (f.p, line, c), 1, {f.p}, f.p), n
                if a[2]:
                    held.add((a[0], a[1]))       # runs its closure under the borrow
        for c, ex in held:
            n += 1
            if ind:
                return Result(BAD, "%s line %s calls an unknown function pointer while it holds %s" % (f.p, line, c), 1, {f.p}, f.p), n
            for h in bodies:
                for (c2, ex2), w in T.get(h, {}).items():
                    if c2 == c and (ex or ex2 or ex2 is None):
                        return Result(BAD, "%s line %s holds %s while calling %s, which borrows it again (%s)" % (f.p, line, c, h.p, w), 1, {f.p, h.p}, f.p), n
    return Result(OK, "", 1, {f.p}), n


def obligations_C16(prog, tier):
    B = back(prog)
    G, cells, T = guard_sites(prog)
    obs = []
    if len(cells) < 2:
        raise Unsupported("fewer than two thread-local cells found")
    fs = [f for f in prog.fns if f.crate in ("qir_backend", "qir_stdlib", "quantum_sparse_sim") and f.has_body and any(b and b[1][0] == "call" for b in f.blocks or ())
          and "::tests::" not in f.p]
    seen = set()
    for f in fs:
        if any(k for k in T.get(f, {})) or any(cg_guard(f, cells)):
            k = (f.p, f.sym)
            if k in seen:
                continue
            seen.add(k)
            obs.append(("held-calls:%s" % (f.p if f.p not in {o[1] for o in obs} else f.p + "#" + str(f.sym)), f.p, lambda f=f: check_reentry(prog, G, cells, T, f)[0]))
    # and every instruction, interpreted: no path ends in a failed borrow and none leaves the state borrowed
    for name, op, _ in c06_operations():
        obs.append(("interpreted:" + name, name, lambda op=op: check_no_borrow_failure(prog, op)))
    return obs


def cg_guard(f, cells):
    import cg
    return [1 for t in f.locals if cg.guard_of(t, cells)]


def check_no_borrow_failure(prog, op):
    B = back(prog)

    def entry(I):
        alloc(B, I, 3)
        S.generic(B.sim, I, B.simref(I), {0, 1, 2, 3}, real=True)
        op(B, I)
        if B.borrowed(I):
            return "the state is still borrowed after the call"
        return None

    def ok(o):
        if o.kind == "panic":
            return "fails: %s" % o.detail if "borrow" in str(o.detail).lower() else None
        return fine(o)
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=200)
    return judge(outs, comp, ok)


# ------------------------------------------------------------------ C17: nothing shared between threads
def check_static(prog, s):
    if s["tls"]:
        return Result(OK, "", 1, {s["p"]})
    if s["mut"]:
        return Result(BAD, "static mut %s is shared by all threads" % s["p"], 1, {s["p"]}, s["p"])
    if not s["freeze"] and "thread_local" not in s["p"] and not s["ty"].s.startswith("std::thread::local::LocalKey"):
        inner = s["ty"].s
        once = inner.startswith(("std::sync::lazy_lock::LazyLock<", "std::sync::once_lock::OnceLock<", "std::sync::once::Once"))
        if once and not any(x in inner for x in ("Mutex", "RwLock", "Atomic", "Cell<", "Condvar")):
            return Result(OK, "", 1, {s["p"]})
        return Result(BAD, "static %s: %s is mutable state shared by all threads" % (s["p"], inner[:160]), 1, {s["p"]}, s["p"])
    return Result(OK, "", 1, {s["p"]})


def check_tls(prog, which):
    B = back(prog)
    if which == "state" and B.state_key is None:
        return Result(BAD, "the simulator state is not thread-local", 1, set())
    if which == "output" and B.out_key is None:
        return Result(BAD, "the output recorder is not thread-local", 1, set())
    key = B.state_key if which == "state" else B.out_key
    return Result(OK, "", 1, {key})


def check_foreign_state(prog):
    """No function obtains state from process-wide storage: environment changes, leaked globals through atomics, raw static addresses."""
    import cg
    G = cg.Graph(prog)
    roots = [prog.resolve(e["fn"]) for e in prog.exports.values()] + api_roots(prog)
    seen, via = G.reach(roots)
    bad = ("std::env::set_var", "std::env::remove_var", "std::sync::mpsc", "std::thread::spawn", "std::thread::scoped", "libc::", "std::os::")
    for f in seen:
        if f.crate not in ("quantum_sparse_sim", "qir_backend", "qir_stdlib"):
            continue
        for bi, line, g, path, ind, bodies in G.calls(f):
            h = source_hit(path, [], bad)
            if h:
                return Result(BAD, "%s calls %s, which acts on the whole process [%s]" % (f.p, path, G.chain(via, f)[:300]), len(seen), {f.p}, f.p)
    return Result(OK, "", len(seen), {x.p for x in seen if x.local})


def obligations_C17(prog, tier):
    obs = [("state-is-thread-local", "backend simulator state", lambda: check_tls(prog, "state")),
           ("output-is-thread-local", "stdlib output recorder", lambda: check_tls(prog, "output")),
           ("process-wide-effects", "call graph of all exports", lambda: check_foreign_state(prog))]
    for s in prog.statics:
        if "::tests::" in s["p"]:
            continue
        obs.append(("static:" + s["p"], s["p"], lambda s=s: check_static(prog, s)))
    return obs


# ------------------------------------------------------------------ the exported side of C07 and C08
def check_alloc_array(prog, have, size, free, prefix=()):
    B = back(prog)

    def entry(I):
        alloc(B, I, have, [(0, have - 1)] if have > 1 else None)
        V = S.valuer(I)
        for g in prefix:
            S.invoke(B.sim, I, B.simref(I), g, V)
        for q in free:
            B.call(I, RT + "qubit_release", q)
        state(B, I)
        live = [q for q in range(have) if q not in free]
        before = S.generic(B.sim, I, B.simref(I), None, real=True) if live else {0: C1}
        arr = B.call(I, RT + "qubit_allocate_array", size)
        n = B.call(I, RT + "array_get_size_1d", arr)
        if n != size:
            return "the array of %d qubits has size %s" % (size, n)
        ids = []
        for i in range(size):
            ids.append(B.get(I, B.call(I, RT + "array_get_element_ptr_1d", arr, i), B.ex(QIS + "h__body").locals[1]))
        if len(set(ids)) != size or set(ids) & set(live):
            return "the allocated ids %s are not new (%s were in use)" % (ids, live)
        now = sorted(B.sim.loc_of(I, B.simref(I)))
        if now != sorted(live + ids):
            return "allocated ids are %s, handed out %s" % (now, ids)
        got, cnt, dup = state(B, I)
        if dup:
            return dup
        want = {}
        for k, c in before.items():
            k2 = sum(1 << now.index(live[i]) for i in range(len(live)) if k >> i & 1)
            want[k2] = c
        e = same_state(got, want, False)
        if e:
            return "after allocation: " + e
        B.call(I, RT + "qubit_release_array", arr)
        if sorted(B.sim.loc_of(I, B.simref(I))) != live:
            return "after releasing the array the ids %s are still allocated" % sorted(B.sim.loc_of(I, B.simref(I)))
        got, cnt, dup = state(B, I)
        return dup or same_state(got, before, True)
    return explore(prog, entry)


def obligations_C07(prog, tier):
    obs = []
    for have in range(0, 4):
        for size in (0, 1, 2, 3):
            for k in range(0, have + 1):
                for free in itertools.combinations(range(have), k):
                    obs.append(("array:%d-without-%s+%d" % (have, list(free), size), RT + "qubit_allocate_array",
                                lambda have=have, size=size, free=free: check_alloc_array(prog, have, size, free)))
    for pre in ([("h", 0)], [("rx", TA, 1)], [("ry", TA, 0)], [("x", 0)], [("h", 1), ("rx", TA, 0)]):
        for free in ((0,), (1,), (0, 1), (1, 0)):
            obs.append(("array-after-%s-without-%s" % (S.seqname(pre), free), RT + "qubit_allocate_array",
                        lambda pre=pre, free=free: check_alloc_array(prog, 2, 2, free, pre)))
    for have, size, free in ((0, 9, ()), (2, 17, (0,)), (0, 33, ()), (1, 66, ()), (0, 130, ())):
        obs.append(("array:%d-without-%s+%d" % (have, list(free), size), RT + "qubit_allocate_array",
                    lambda have=have, size=size, free=free: check_alloc_array(prog, have, size, free)))
    return obs


def with_ids(inst, m):
    """The instruction with its qubit ids renamed."""
    def f(a):
        if isinstance(a, tuple):
            if a[0] in ("ctl", "qubits"):
                return (a[0], [m[q] for q in a[1]])
            if a[0] == "rot":
                return ("rot", a[1], m[a[2]])
            if a[0] == "prot":
                return ("prot", a[1], a[2], m[a[3]])
            if a[0] == "pexp":
                return ("pexp", a[1], a[2], [m[q] for q in a[3]])
            return a
        return m[a] if isinstance(a, int) else a
    return (inst[0], [f(a) for a in inst[1]], None)


def check_rejected(prog, n, inst, free=(), prefix=()):
    B = back(prog)

    def entry(I):
        alloc(B, I, n)
        V = S.valuer(I)
        for q in free:
            B.call(I, RT + "qubit_release", q)
        S.generic(B.sim, I, B.simref(I), {0, 1, 2, 3}, real=True)
        for g in prefix:
            S.invoke(B.sim, I, B.simref(I), g, V)
        perform(B, I, inst, V)
        state(B, I)                # deferred work takes effect no later than here
        return "the call succeeds"

    def ok(o):
        return None if o.kind == "panic" else fine(o)
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=100)
    return judge(outs, comp, ok)


def acts(inst):
    """False for instructions that are the identity (uncontrolled rotations about I)."""
    return not noop_on_nothing(inst) and not (inst[0].startswith("exp") and "I" in str(inst[1]))


def obligations_C08(prog, tier):
    obs = []
    insts = [i for i in gate_instances((0, 1, 2), TA) + exp_instances((0, 1, 2), TA, ["X", "ZY", "XX"])]
    for inst in insts:
        qs = sorted(set(named_qubits(inst)))
        if noop_on_nothing(inst):
            continue
        inert = inst[0] in ("r__ctl", "r__ctladj") and inst[1][1][1] == "I"    # does not touch its target
        for a, b in itertools.combinations(qs, 2):
            if inst[0].startswith("swap") or inert and inst[1][1][3] in (a, b):
                continue
            m = {q: q for q in qs}
            m[b] = a
            bad = with_ids(inst, m)
            for pre in ((), [("h", 0)], [("rx", S.TB, 0)]):
                obs.append(("repeated:%s|%s" % (iname(bad), S.seqname(pre)), QIS + inst[0], lambda bad=bad, pre=pre: check_rejected(prog, 3, bad, (), pre)))
        for q in qs:
            if inert and q == inst[1][1][3]:
                continue
            # one operand is a released id; the others are live
            m = {x: x for x in qs}
            obs.append(("released-%d:%s" % (q, iname(inst)), QIS + inst[0], lambda inst=inst, q=q: check_rejected(prog, 4, inst, (q,))))
    for name, fn, named in observer_instances((0, 1)):
        for q in named:
            obs.append(("released-%d:%s%s" % (q, name, named), QIS + name, lambda fn=fn, q=q: check_rejected_call(prog, fn, q)))
    obs.append(("released-0:release", RT + "qubit_release", lambda: check_rejected_call(prog, lambda B, I: B.call(I, RT + "qubit_release", 0), 0)))
    for bad in ([0, 0], [0, 1, 0], [1, 2, 2]):
        obs.append(("repeated:measure%s" % bad, QIS + "measure__body", lambda bad=bad: check_rejected_call(
            prog, lambda B, I: B.call(I, QIS + "measure__body", marshal(B, I, ("paulis", "Z" * len(bad)), None), B.array(I, bad)), None)))
    return obs


def check_rejected_call(prog, fn, free):
    B = back(prog)

    def entry(I):
        alloc(B, I, 3)
        if free is not None:
            B.call(I, RT + "qubit_release", free)
        S.generic(B.sim, I, B.simref(I), {0, 1, 2, 3}, real=True)
        fn(B, I)
        return "the call succeeds"
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook()}, max_paths=100)
    return judge(outs, comp, lambda o: None if o.kind == "panic" else fine(o))
