"""C33: what a machine dump writes and leaves behind."""
import itertools
import sim_checks as S
import std_checks as D
import back_checks as K
import cmodels
import interp
import models
from back_checks import QIS, RT, back, observer_setup, state, same_state
from interp import Ref, StrV, Unsupported, VecV

DUMP = QIS + "dumpmachine__body"


def results_line(results):
    """The line that lists every result id up to the highest one written; ids never written are zero."""
    if not results:
        return ""
    top = max(i for i, _ in results)
    v = dict(results)
    return "Global Results: [%s]\n" % ", ".join("1" if v.get(i) else "0" for i in range(top + 1))


def split_line(t, want):
    """(what follows the line, None) or (None, complaint)."""
    if not want:
        return t, None
    p = t.parts
    head = p[0] if p and isinstance(p[0], str) else ""
    if not head.startswith(want):
        i = head.find("\n")
        return None, "the dump starts with %r, required %r" % (head[:i + 1] if i >= 0 else D.show(t)[:200], want)
    return StrV((head[len(want):],) + p[1:]), None


def check_dump(prog, n, perm, prefix, results, buffered, present=None, basis=None, times=2, junk=None):
    B = back(prog)

    def entry(I):
        vec, N = observer_setup(B, I, n, perm, present, basis, True, prefix)
        for i, b in results:
            B.call(I, RT + "write_result", b, i)
        want = results_line(results)
        if junk is not None:
            D.rec("int", junk, "before").call(B, I)
        if buffered:
            D.method(B, I, "use_std_out", False)
        for k in range(times):
            at = len(I.trace)
            B.call(I, DUMP, 0)
            if buffered:
                if any(t[0] == "write" for t in I.trace[at:]):
                    return "the dump writes to standard output while it is redirected to the buffer"
                t = D.drained(B, I)
            else:
                try:
                    t = D.written(I, at)
                except D.Wrong as e:
                    return str(e)
            t, e = split_line(t, want)
            e = e or S.same_dump(t, vec)
            if e:
                return ("" if not k else "dumping again: ") + e
        if B.borrowed(I):
            return "the thread's state is still borrowed"
        if any(t[0] == "random" for t in I.trace):
            return "a dump draws a random number"
        got, cnt, dup = state(B, I)
        e = dup or same_state(got, vec, True)
        if e:
            return "after the dump: " + e
        if cnt != n:
            return "%s qubits exist after the dump instead of %d" % (cnt, n)
        for i in sorted({i for i, _ in results} | {0, 3, 200}):
            v = I.truth(B.call(I, RT + "read_result", i))
            if v != bool(dict(results).get(i)):
                return "after the dump result %d reads %s" % (i, v)
        return None
    return K.explore(prog, entry)


def check_location(prog, mk, results, prefix):
    """A dump to a location is not provided: it fails instead of writing somewhere else or doing nothing."""
    B = back(prog)

    def entry(I):
        observer_setup(B, I, 1, [], None, None, True, prefix)
        for i, b in results:
            B.call(I, RT + "write_result", b, i)
        B.call(I, DUMP, mk(I))
        return "a dump to a location returns"

    def ok(o):
        if o.kind == "panic":
            if "borrowed" in (o.detail or ""):
                return "a dump to a location fails because state is still borrowed"
            if any(t[0] == "write" for t in o.interp.trace):
                return "a dump to a location writes to standard output before it fails"
            return None
        return K.fine(o)
    outs, comp = interp.explore(prog, models, entry, {"near0": S.near_hook(False, False)}, max_paths=200, subst_depth=2)
    return D.judge(outs, comp, ok)


def obligations_C33(prog, tier):
    B = back(prog)
    if not B.has(DUMP):
        raise D.MissingAnchor("not exported: " + DUMP)
    obs = []

    def add(name, *a, **kw):
        obs.append((name, DUMP, lambda: check_dump(prog, *a, **kw)))
    sets = [(), ((0, False),), ((0, True),), ((1, True),), ((2, False), (0, True)), ((0, True), (1, False), (2, True)), ((5, True), (3, True), (4, False)),
            ((7, True), (0, True)), ((8, True),), ((31, True), (32, True)), ((63, True),), ((64, True), (63, False)), ((65, False), (1, True)),
            ((130, True), (64, True), (0, True))]
    if tier == "thorough":
        sets += [tuple((i, b) for i, b in enumerate(v)) for k in (2, 3, 4) for v in itertools.product((False, True), repeat=k)] + [((1000, True), (999, True))]
    for rs in sets:
        tag = ",".join("%d=%d" % (i, b) for i, b in rs) or "none"
        for buf in (False, True):
            b = " buffered" if buf else ""
            add("results:%s%s" % (tag, b), 1, [], (), rs, buf)
            add("results:%s h%s" % (tag, b), 2, [(0, 1)], [("h", 0)], rs, buf, basis=0)
            add("results:%s after a record%s" % (tag, b), 1, [], (), rs, buf, junk=7)
    for n in (0, 1, 2, 3):
        for perm in {0: [[]], 1: [[]], 2: [[], [(0, 1)]], 3: [[], [(0, 1)], [(0, 2)], [(1, 2)], [(0, 1), (1, 2)], [(1, 2), (0, 1)]]}[n]:
            tag = "%d qubits" % n + "".join(" swap %d,%d" % w for w in perm)
            for buf in (False, True):
                for rs in ((), ((2, True),)):
                    add("state:%s%s%s" % (tag, " results" if rs else "", " buffered" if buf else ""), n, perm, (), rs, buf,
                        **({"basis": 0} if n == 0 else {}))
            for b in range(1 << n):
                add("basis:%s:%d" % (tag, b), n, perm, (), (), False, basis=b)
    for s in S.pending_classes(prog):
        for rs in ((), ((0, True),)):
            add("pending:%s%s" % (S.seqname(S.on(s, 0, "p")), " results" if rs else ""), 2, [(0, 1)], S.on(s, 0, "p"), rs, bool(rs))
    places = [("a buffer", lambda I: Ref(I.alloc(VecV([0] * 16), "loc"), (("b", 0),))), ("1", lambda I: 1), ("8", lambda I: 8)]
    for nm, mk in places:
        for rs in ((), ((0, True),)):
            for pre in ((), (("h", 0),)):
                obs.append(("location:%s%s%s" % (nm, " results" if rs else "", " h" if pre else ""), DUMP,
                            lambda mk=mk, rs=rs, pre=pre: check_location(prog, mk, rs, pre)))
    return obs
