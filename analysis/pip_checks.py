"""The Python half of C32: the package's Rust source, type-checked against a model of pyo3 (stubs/pyo3), and its type stub."""
import ast
import itertools
import os

import backlab
import cli_checks as C
import extract
import interp
import mir
import models
import runner_checks as R
from engine import BAD, OK, UNK, Result
from interp import Agg, NatV, StrV, UNIT, Unsupported, VecV, short
from runner_checks import opt, text

_P = {}
PY = "pipprobe::python::"


def pip():
    if "B" not in _P:
        try:
            out = extract.extract_runner(True)
        except extract.ExtractError as e:
            _P["B"] = Unsupported("the Python module does not type-check against the model of pyo3: " + str(e).strip().split("\n")[-1][:300])
        else:
            _P["B"] = backlab.Back(mir.Program(out, extra=("inkwell", "runner", "probe", "pyo3", "pipprobe")))
    if isinstance(_P["B"], Unsupported):
        raise _P["B"]
    return _P["B"]


def params(f):
    """The parameters a Python caller sees: (name, type)."""
    names = {}
    for n, (loc, proj) in f.vars:
        if 1 <= loc <= f.argc and not proj:
            names.setdefault(loc, n)
    out = []
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        out.append((names.get(i), t, t.path == "pyo3::Python"))
    return out


def function(B, name):
    fs = B.P.by_path.get(PY + name)
    if not fs or len(fs) != 1:
        raise Unsupported("Python function %s" % name)
    return fs[0]


def call(I, B, name, kw):
    """The function as called from Python with these keyword arguments (values already Rust values of the inner type)."""
    f = function(B, name)
    args, left = [], set(kw)
    for n, t, py in params(f):
        if py:
            args.append(Agg(t, 0, ()))
            continue
        left.discard(n)
        if n in kw:
            v = kw[n]
            v = v(I) if callable(v) else v
            if t.path == "core::option::Option":
                v = models.NONE if v is None else models.some(v)
            args.append(v)
        else:
            d = B.P.by_path.get(PY + "%s__default__%s" % (name, n))
            if not d:
                raise Missing(n)
            args.append(I.call_fn(d[0], []))
    if left:
        raise Missing(sorted(left)[0])
    return I.call_fn(f, args)


class Missing(Exception):
    pass


def explore(entry):
    B = pip()
    outs, comp = interp.explore(B.P, models, entry, {}, max_paths=100)
    unk = None if comp else "not every path was followed"
    vis = set()
    for o in outs:
        vis |= o.interp.visited
        if o.kind in ("unsupported", "cut"):
            unk = unk or "unsupported: %s" % o.detail
    return outs, unk, vis


def callback(B, fails=False):
    return lambda I: B.pub(I, "pipprobe::callback", fails)


SRC = {"run": ("path", lambda I: StrV(("dir/prog.ll",)), ("text", ("dir/prog.ll",)), "run_file"),
       "run_bytes": ("bytes", lambda I: VecV(C.PROGRAM), bytes(C.PROGRAM), "run_bytes")}


def arrives(fn, kw, want):
    B = pip()
    src, val, exp, target = SRC[fn]

    def entry(I):
        C.setup(I, [], C.PROGRAM, False)
        I.intercept = {"runner::" + n: C.arrive(n) for n in C.FUNCS}
        k = {a: (callback(B) if b == "callback" else b) for a, b in kw.items()}
        k[src] = val
        return call(I, B, fn, k), I
    try:
        outs, unk, vis = explore(entry)
    except Missing as e:
        return Result(BAD, "argument %s is not accepted, or required although it is documented as optional" % e, 1, set())
    for o in outs:
        if o.kind in ("panic", "ub"):
            return Result(BAD, "the call ends with a %s: %s" % (o.kind, o.detail), len(outs), vis)
        if o.kind != "return":
            continue
        r, I = o.value
        runs = [t for t in I.trace if t[0] == "runs"]
        if r.name != "Ok":
            return Result(BAD, "rejected", len(outs), vis)
        if len(runs) != 1:
            return Result(BAD, "%d runs are started" % len(runs), len(outs), vis)
        if runs[0][1] != target:
            return Result(UNK, "the run is started through %s" % runs[0][1], len(outs), vis)
        a = runs[0][2]
        for what, x, y in (("program", a[0], exp), ("entry point", a[1], want[0]), ("shot count", a[2], want[1]), ("seed", a[3], want[2])):
            if not C.same(x, y):
                return Result(BAD, "the run gets %s %s instead of %s" % (what, C.show(x), C.show(y)), len(outs), vis)
    return Result(UNK, unk, len(outs), vis) if unk else Result(OK, "", len(outs), vis)


def shown(o, name="__str__"):
    """The texts a callback was given, one per call."""
    out = []
    for c in o.f[1].items:
        if len(c.items) != 1:
            return None
        d = {k.f[0].lit() if isinstance(k.f[0], StrV) else k.f[0]: k.f[1] for k in c.items[0].items}
        if name not in d:
            return None
        out.append(d[name])
    return out


def joined(ts):
    s = StrV()
    for t in ts:
        s = s + t
    return s


def history(fn, runs, p, broken):
    """A sequence of runs through Python; runs: (callback?, shots, seed?). Compared with the same runs without Python."""
    B = pip()
    src, val, exp, target = SRC[fn]

    def through(I):
        C.setup(I, [], C.PROGRAM, False)
        out, at = [], 0
        for cb, shots, seeded in runs:
            B.pub(I, "pipprobe::before", p, broken)
            k = {src: val}
            if cb:
                k["output_fn"] = callback(B)
            if shots is not None:
                k["shots"] = shots
            if seeded:
                k["rng_seed"] = C.SEED
            r = call(I, B, fn, k)
            o = B.pub(I, "pipprobe::observe", r)
            texts = shown(o)
            reprs = shown(o, "__repr__")
            out.append((repr(o.f[0]), repr(texts if texts is None else joined(texts)), texts == reprs, written_from(I, at), events(o.f[4])))
            at = len(I.trace)
        return out, final(B, I, out)

    def direct(I):
        C.setup(I, [], C.PROGRAM, False)
        out, at = [], 0
        for cb, shots, seeded in runs:
            B.pub(I, "pipprobe::before", p, broken)
            f = "direct_file" if fn == "run" else "direct_bytes"
            s = B.pub(I, "pipprobe::" + f, val(I), models.NONE, 1 if shots is None else shots, opt(C.SEED if seeded else None)(I), bool(cb))
            e = models.NONE if s.f[0].name == "Ok" else models.some(s.f[0].f[0])
            t = models.cmodels.bytes_text(s.f[1].items) if isinstance(s.f[1], VecV) else s.f[1]
            out.append((repr(e), repr(t) if cb else repr(StrV()), True, written_from(I, at), events(s)))
            at = len(I.trace)
        return out, final(B, I, out)
    a, unk, vis = explore(through)
    b, unk2, _ = explore(direct)
    bad = [o for o in a if o.kind in ("panic", "ub")]
    if bad and not [o for o in b if o.kind in ("panic", "ub")]:
        return Result(BAD, "the call ends with a %s: %s" % (bad[0].kind, bad[0].detail), len(a), vis)
    if unk or unk2:
        return Result(UNK, unk or unk2, len(a), vis)
    x, y = sorted((o.value for o in a if o.kind == "return"), key=repr), sorted((o.value for o in b if o.kind == "return"), key=repr)
    if x != y:
        return Result(BAD, "the runs show %s, required %s" % (str([u for u in x if u not in y][:1])[:500], str([u for u in y if u not in x][:1])[:500]), len(a), vis)
    return Result(OK, "", len(a), vis)


def events(s):
    return repr([(x.name,) + tuple(map(repr, x.f)) for x in s.f[2].items]), repr(s.f[3:6])


def final(B, I, out):
    return R.sim_after(B, I) if all(o[0] == "Option::None()" for o in out) else None


def written_from(I, at):
    out = StrV()
    for t in I.trace[at:]:
        if t[0] == "write" and t[1] == "Stdout":
            out = out + (t[2] if isinstance(t[2], StrV) else StrV((t[2],)))
    return repr(out)


def main_call(argv, want, none=False, tty=False):
    B = pip()

    def runit(I):
        if none:
            I.argv = [StrV(("/usr/bin/python3",))] + I.argv
            r = call(I, B, "main", {})
        else:
            r = call(I, B, "main", {"args": lambda I: VecV([StrV(x.parts) for x in argv])})
        return r
    return C.given(argv, want, how=(B, runit), tty=tty)


def registered():
    B = pip()

    def entry(I):
        C.setup(I, [], C.PROGRAM, False)
        B.pub(I, "pipprobe::before", 1, 0)
        f = function(B, "_native")
        m = I.mkref(Agg(f.locals[2].elem, 0, (Agg(None, 0, ()), UNIT)))
        r = I.call_fn(f, [Agg(f.locals[1], 0, ()), m])
        return B.pub(I, "pipprobe::observe", r)
    outs, unk, vis = explore(entry)
    for o in outs:
        if o.kind == "return":
            fs, cs = [x.lit() for x in o.value.f[2].items], [x.lit() for x in o.value.f[3].items]
            miss = {"run", "run_bytes", "main"} - set(fs) | {"Output"} - set(cs)
            if miss:
                return Result(BAD, "the module does not offer %s" % ", ".join(sorted(miss)), len(outs), vis)
        elif o.kind in ("panic", "ub"):
            return Result(BAD, "loading the module ends with a %s" % o.kind, len(outs), vis)
    return Result(UNK, unk, len(outs), vis) if unk else Result(OK, "", len(outs), vis)


def documented(fn):
    """The type stub's parameters against the function's own."""
    B = pip()
    tree = ast.parse(open(os.path.join(extract.REPO, "pip", "qirrunner", "_native.pyi")).read())
    ds = [d for d in tree.body if isinstance(d, ast.FunctionDef) and d.name == fn]
    if not ds:
        return Result(BAD, "%s is not in the type stub" % fn, 1, set())
    a = ds[0].args
    have = [(n, t) for n, t, py in params(function(B, fn)) if not py]
    if [x.arg for x in a.args] != [n for n, _ in have]:
        return Result(BAD, "documented parameters %s, actual ones %s" % ([x.arg for x in a.args], [n for n, _ in have]), 1, set())
    dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    for n, t in have:
        d = B.P.by_path.get(PY + "%s__default__%s" % (fn, n))
        if n in dflt and not d:
            return Result(BAD, "%s is documented as optional" % n, 1, set())
    return Result(OK, "", 1, set())


def obligations(tier):
    obs = []
    try:
        pip()
    except Unsupported as e:
        why = str(e)
        return [("python:" + fn, "pip python", lambda: Result(UNK, "unsupported: " + why, 0, set())) for fn in ("run", "run_bytes", "main")]

    def add(name, f):
        obs.append(("python:" + name, "pip python::run", f))
    ent = lambda I: StrV(("main",))
    vals = {"entry_point": (ent, ("text", ("main",))), "shots": (C.SHOTS, C.SHOTS), "rng_seed": (C.SEED, C.SEED), "output_fn": ("callback", None)}
    for fn in SRC:
        for k in range(5):
            for ch in itertools.combinations(vals, k):
                for explicit in (False, True):
                    kw = {o: vals[o][0] for o in ch}
                    if explicit:
                        kw.update({o: None for o in vals if o not in ch})
                    want = (vals["entry_point"][1] if "entry_point" in ch else None, C.SHOTS if "shots" in ch else 1, C.SEED if "rng_seed" in ch else None)
                    add("%s(%s)%s" % (fn, ",".join(ch), "/rest None" if explicit else ""), lambda fn=fn, kw=kw, want=want: arrives(fn, kw, want))
        for p in (0, 1, 2, 3):
            for runs in ([(0, None, 0)], [(1, None, 0)], [(1, 2, 1)], [(0, 2, 1)], [(1, 0, 0)], [(1, None, 0), (0, None, 0)], [(0, None, 1), (1, None, 0)],
                         [(1, None, 1), (1, None, 0)], [(0, 1, 0), (0, 1, 1)], [(1, 1, 1), (0, 1, 0), (1, 1, 1)]):
                if p == 3:
                    runs = [(c, 1 if s is None else s, d) for c, s, d in runs]
                    if sum(s for _, s, _ in runs) > 2 and tier != "thorough":
                        continue
                add("%s history %s program%d" % (fn, runs, p), lambda fn=fn, runs=runs, p=p: history(fn, runs, p, 0))
        for b, what in R.BROKEN.items():
            for cb in (0, 1):
                add("%s failing: %s/%s" % (fn, what, "callback" if cb else "console"), lambda fn=fn, b=b, cb=cb: history(fn, [(cb, None, 1)], 1, b))
    add("module", registered)
    for fn in ("run", "run_bytes", "main"):
        add("type stub of " + fn, lambda fn=fn: documented(fn))
    q = C.tok("qir-runner")
    for k in range(5):
        for i, ch in enumerate(itertools.combinations(C.OPTS, k)):
            argv = [q]
            for o in ch:
                argv += C.spell(C.OPTS[o][0], C.OPTS[o][1], C.VALS[o], i % 5)
            for none in (False, True):
                add("main(%s)%s" % ("+".join(ch), " from the process" if none else ""), lambda argv=argv, ch=ch, none=none: main_call(argv, C.outcome(ch), none))
    for none in (False, True):
        for x, want in ((["--help"], "nothing"), (["--nope"], "error"), (["extra"], "error"), (["-s", "x"], "error")):
            add("main(%s)%s" % (" ".join(x), " from the process" if none else ""), lambda x=x, want=want, none=none: main_call([q] + [C.tok(t) for t in x], want, none))
    return obs
