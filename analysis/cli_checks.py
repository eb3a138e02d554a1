"""C32: what is given on the command line or through the Python functions is what the run gets.

The command line function is interpreted with abstract argument vectors whose numbers are unknowns; the run functions it
reaches are intercepted, so that the values arriving there are compared with the ones given. clap is a transfer function
(clapmodels). A second set of obligations compares whole runs with direct calls of the run functions."""
import itertools

import interp
import models
import runner_checks as R
from dom import A
from engine import BAD, OK, UNK, Result
from interp import Agg, NatV, Ref, StrV, UNIT, Unsupported, VecV, short
from runner_checks import arr, opt, raw, text

SHOTS, SEED = A("usym", "shots"), A("usym", "seed")
RANGES = {repr(SHOTS): (0, (1 << 32) - 1), repr(SEED): (0, (1 << 64) - 1)}
FUNCS = ("run_file", "run_input", "run_bytes", "run_bitcode")
PROGRAM = b"; ModuleID = 'x'"


def disp(x):
    return ("disp", x)


def tok(*parts):
    return StrV(tuple(p for p in parts if p != ""))


def plain(I, v):
    """An argument that reached a run function, as something comparable."""
    v = I.deref(v)
    if isinstance(v, NatV) and v.kind == "Box":
        v = I.get_obj(v.d)
    if isinstance(v, Agg) and v.name == "None":
        return None
    if isinstance(v, Agg) and v.name == "Some":
        return plain(I, v.f[0])
    if isinstance(v, VecV):
        return bytes(I.concrete(x) for x in v.items)
    if isinstance(v, NatV) and v.kind in ("Stdin", "Stdout", "StdoutLock"):
        return ("stream", v.kind.replace("Lock", ""))
    if isinstance(v, StrV):
        return ("text", v.parts)
    if isinstance(v, bool):
        raise Unsupported("argument %s" % short(v))
    return v


def arrive(name):
    def f(I, args):
        I.trace.append(("runs", name, tuple(plain(I, x) for x in args), tuple(args)))
        return models.ok(UNIT)
    return f


def setup(I, argv, stdin, tty):
    I.argv = [StrV(x.parts) for x in argv]
    I.stdin = None if tty else stdin
    I.number_ranges = RANGES


def explore(entry, B=None):
    B = B or R.runner()
    outs, comp = interp.explore(B.P, models, entry, {}, max_paths=100)
    unk = None if comp else "not every path was followed"
    for o in outs:
        if o.kind in ("unsupported", "cut"):
            unk = unk or "unsupported: %s" % o.detail
    vis = set()
    for o in outs:
        vis |= o.interp.visited
    return outs, unk, vis


def given(argv, want, how="cli", stdin=PROGRAM, tty=False):
    """want: ("run", path or None for standard input, entry, shots, seed), "error" or "nothing"."""
    B = how[0] if isinstance(how, tuple) else R.runner()

    def entry(I):
        setup(I, argv, stdin, tty)
        I.intercept = {"runner::" + n: arrive(n) for n in FUNCS}
        if isinstance(how, tuple):
            return how[1](I), I
        if how == "binary":
            f = B.P.by_path.get("probe::binary::main")
            if not f:
                raise Unsupported("the program's main function")
            return I.call_fn(f[0], []), I
        v = B.pub(I, "probe::cli", VecV([StrV(x.parts) for x in argv]), 1)
        return v.f[0], I
    outs, unk, vis = explore(entry, B)
    n = len(outs)
    for o in outs:
        if o.kind in ("panic", "ub"):
            return Result(BAD, "the program ends with a %s: %s" % (o.kind, o.detail), n, vis)
        if o.kind != "return":
            continue
        r, I = o.value
        runs = [t for t in I.trace if t[0] == "runs"]
        okay = r.name == "Ok"
        if want in ("error", "nothing"):
            if runs:
                return Result(BAD, "a run is started: %s%r" % (runs[0][1], runs[0][2]), n, vis)
            if want == "error" and okay:
                return Result(BAD, "the arguments are accepted and nothing is run", n, vis)
            if want == "nothing" and not okay:
                return Result(BAD, "an error is reported: %s" % short(r.f[0]), n, vis)
            continue
        if not okay:
            return Result(BAD, "rejected: %s" % short(r.f[0]), n, vis)
        if len(runs) != 1:
            return Result(BAD, "%d runs are started" % len(runs), n, vis)
        _, path, ent, shots, seed = want
        name, a = runs[0][1], runs[0][2]
        if name == "run_bitcode":
            a = a[:3] + (None,) + a[3:]
        if len(a) != 5:
            raise Unsupported("a run function with %d parameters" % len(a))
        src = a[0]
        if name == "run_file":
            got = ("file", src)
        elif src == ("stream", "Stdin") or src == stdin:
            got = ("stdin",)
        else:
            got = ("bytes", src)
        exp = ("stdin",) if path is None else ("file", ("text", path.parts))
        if got[0] == "bytes":
            return Result(UNK, "the program text is read by the command line itself; whether it is the requested one is not decided", n, vis)
        for what, x, y in (("program", got, exp), ("entry point", a[1], None if ent is None else ("text", ent.parts)), ("shot count", a[2], shots),
                           ("seed", a[3], seed), ("output", a[4], ("stream", "Stdout"))):
            if what == "output" and x != y:
                return Result(UNK, "the output goes to %s" % (x,), n, vis)
            if not same(x, y):
                return Result(BAD, "the run gets %s %s instead of %s" % (what, show(x), show(y)), n, vis)
    if unk:
        return Result(UNK, unk, n, vis)
    return Result(OK, "", n, vis)


def same(x, y):
    if x is None or y is None or isinstance(x, (tuple, bytes, bool)) or isinstance(y, (tuple, bytes, bool)):
        return x == y
    return repr(models.lift(x)) == repr(models.lift(y))


def show(x):
    if isinstance(x, tuple) and x and x[0] == "text":
        return repr("".join(p if isinstance(p, str) else "<%s>" % (p[1],) for p in x[1]))
    return repr(x)


def spell(long, short, v, style):
    """An option in one of the forms the command line accepts."""
    if style == 0:
        return [tok("--" + long), v]
    if style == 1:
        return [StrV(("--%s=" % long,) + v.parts) if not v.parts or not isinstance(v.parts[0], str) else StrV(("--%s=%s" % (long, v.parts[0]),) + v.parts[1:])]
    if style == 2:
        return [tok("-" + short), v]
    if style == 3:
        return [join("-" + short, v)]
    return [join("-%s=" % short, v)]


def join(s, v):
    if v.parts and isinstance(v.parts[0], str):
        return StrV((s + v.parts[0],) + v.parts[1:])
    return StrV((s,) + v.parts)


OPTS = {"file": ("file", "f"), "entry": ("entrypoint", "e"), "shots": ("shots", "s"), "seed": ("rngseed", "r")}
VALS = {"file": tok("dir/prog.ll"), "entry": tok("main"), "shots": tok(disp(SHOTS)), "seed": tok(disp(SEED))}


def outcome(chosen, vals=VALS, shots=SHOTS, seed=SEED):
    f = vals["file"] if "file" in chosen else None
    if f is not None and f.lit() == "-":
        f = None
    return ("run", f, vals["entry"] if "entry" in chosen else None, shots if "shots" in chosen else 1, seed if "seed" in chosen else None)


def obligations_C32(prog, tier):
    R.runner()
    obs = []
    names = list(OPTS)

    def add(name, argv, want, **kw):
        argv = [tok("qir-runner")] + argv
        obs.append((name, "runner cli::main", lambda: given(argv, want, **kw)))
    for k in range(5):
        for chosen in itertools.permutations(names, k):
            for style in range(5):
                if len(chosen) > 2 and style not in (hash_of(chosen) % 5, (hash_of(chosen) + 2) % 5) and tier != "thorough":
                    continue
                argv = []
                for i, o in enumerate(chosen):
                    argv += spell(OPTS[o][0], OPTS[o][1], VALS[o], (style + i * (style > 2)) % 5)
                for how in ("cli", "binary") if k in (0, 4) or tier == "thorough" else ("cli",):
                    add("options:%s/style%d/%s" % ("+".join(chosen) or "none", style, how), argv, outcome(chosen), how=how)
    for style in range(5):
        for f in ("-", "p.bc", "a b.ll", "x=y.ll", " p.ll", "p.ll ", "~/p.ll", "$HOME/p.ll", "\"p.ll\"", "-.ll" if style in (1, 3, 4) else "p", "Ünï.ll", "./-", "--file" if style in (1, 3, 4) else "q"):
            v = dict(VALS, file=tok(f))
            if style == 3 and f.startswith("="):
                continue
            add("file:%s/style%d" % (f, style), spell("file", "f", v["file"], style), outcome(("file",), v))
            add("file:%s+seed/style%d" % (f, style), spell("rngseed", "r", VALS["seed"], style) + spell("file", "f", v["file"], style), outcome(("file", "seed"), v))
        for e in ("main", " main", "main ", "\tmain\n", "@main", "\"main\"", "ma.in", "main,other", "Main", "a b", "-" if style != 3 else "k", "Ünï", "x" * 70, "--shots" if style in (1, 4) else "shots", "none", "0"):
            v = dict(VALS, entry=tok(e))
            add("entry:%s/style%d" % (e[:8], style), spell("entrypoint", "e", v["entry"], style), outcome(("entry",), v))
        if style in (0, 1, 2):
            add("entry:empty/style%d" % style, spell("entrypoint", "e", tok(""), style), outcome(("entry",), dict(VALS, entry=tok(""))))
        for n in ("0", "1", "2", "10", "255", "256", "65536", "2147483648", "4294967295", "+3", "007"):
            add("shots:%s/style%d" % (n, style), spell("shots", "s", tok(n), style), outcome(("shots",), shots=int(n)))
        for n in ("0", "1", "42", "4294967296", "9223372036854775808", "18446744073709551615", "+3", "007"):
            add("seed:%s/style%d" % (n, style), spell("rngseed", "r", tok(n), style), outcome(("seed",), seed=int(n)))
        for n in ("4294967296", "-1", "abc", "1.5", "1e3", "18446744073709551616", "0x10", "1 ", "", "1_000"):
            if n == "" and style in (0, 2, 3, 4) or n == "-1" and style in (0, 2):
                pass
            if n != "" or style in (0, 1, 2):
                add("bad-shots:%r/style%d" % (n, style), spell("shots", "s", tok(n), style) + spell("file", "f", tok("p.ll"), 0), "error")
        for n in ("18446744073709551616", "-1", "abc", "1.5", "0x10", "", "99999999999999999999999"):
            if n != "" or style in (0, 1, 2):
                add("bad-seed:%r/style%d" % (n, style), spell("rngseed", "r", tok(n), style) + spell("file", "f", tok("p.ll"), 0), "error")
        for o in names:
            a = spell(OPTS[o][0], OPTS[o][1], VALS[o], style)
            b = spell(OPTS[o][0], OPTS[o][1], VALS[o], (style + 1) % 5)
            add("repeated:%s/style%d" % (o, style), a + b, "error")
    for o in names:
        for s in ("--" + OPTS[o][0], "-" + OPTS[o][1]):
            add("missing-value:%s" % s, [tok(s)], "error")
            for o2 in names:
                add("missing-value:%s before %s" % (s, o2), [tok(s)] + spell(OPTS[o2][0], OPTS[o2][1], VALS[o2], 0), "error")
        add("abbreviated:%s" % o, [tok("--" + OPTS[o][0][:-1]), VALS[o]], "error")
        add("capital:%s" % o, [tok("-" + OPTS[o][1].upper()), VALS[o]], "error")
    for x in ("prog.ll", "extra", "-", "--verbose", "-x", "-q", "--seed"):
        add("unexpected:%s" % x, [tok(x)], "error")
        add("unexpected:%s after file" % x, spell("file", "f", VALS["file"], 0) + [tok(x)], "error")
    for x in ("--help", "-h", "--version", "-V"):
        add("information:%s" % x, [tok(x)], "nothing")
        add("information:%s after options" % x, spell("file", "f", VALS["file"], 0) + spell("shots", "s", VALS["shots"], 0) + [tok(x)], "nothing")
    add("terminal:none", [], "nothing", tty=True)
    add("terminal:-", spell("file", "f", tok("-"), 0), "nothing", tty=True)
    add("terminal:file", spell("file", "f", VALS["file"], 0), outcome(("file",)), tty=True)
    # whole runs compared with direct calls
    for p in (0, 1, 2, 3):
        for shots in (None, 0, 1, 2):
            for seed in (None, SEED):
                if p == 3 and (shots is None or shots == 2 and tier != "thorough"):
                    continue        # the random program with a defaulted count: a wrong default would fork without end
                for e in (None, "main"):
                    for src in ("prog.ll", "prog.bc", None):
                        obs.append(("run:program%d/x%s/%s/%s/%s" % (p, shots, "seeded" if seed is not None else "unseeded", e or "any", src or "stdin"), "runner cli::main",
                                    lambda p=p, shots=shots, seed=seed, e=e, src=src: whole(p, shots, seed, e, src)))
    import pip_checks
    obs += pip_checks.obligations(tier)
    return obs


def hash_of(chosen):
    return sum((i + 2) * (ord(c[0]) + ord(c[1])) for i, c in enumerate(chosen))


def whole(p, shots, seed, e, src):
    B = R.runner()
    argv = [tok("qir-runner")]
    if src is not None:
        argv += spell("file", "f", tok(src), 0)
    if shots is not None:
        argv += spell("shots", "s", tok(str(shots)), 1)
    if seed is not None:
        argv += spell("rngseed", "r", tok(disp(seed)), 2)
    if e is not None:
        argv += spell("entrypoint", "e", tok(e), 0)
    n = 1 if shots is None else shots

    def state(I, v):
        s = v
        ev = repr([(x.name,) + tuple(map(repr, x.f)) for x in s.f[2].items])
        return (repr(s.f[0]), ev, repr(s.f[3:6]), written(I), R.sim_after(B, I) if n and s.f[0].name == "Ok" else None)

    def one(I):
        setup(I, argv, PROGRAM, False)
        return state(I, B.pub(I, "probe::cli", VecV([StrV(x.parts) for x in argv]), p))

    def two(I):
        setup(I, argv, PROGRAM, False)
        sd, en = opt(seed)(I), opt(text(e) if e else None)(I)
        if src is not None:
            return state(I, B.pub(I, "probe::plain_file", StrV((src,)), en, n, sd, p))
        return state(I, B.pub(I, "probe::plain_input", VecV(PROGRAM), en, n, sd, p))
    a, unk, vis = explore(one)
    b, unk2, _ = explore(two)
    bad = [o for o in a if o.kind in ("panic", "ub")]
    if bad and not [o for o in b if o.kind in ("panic", "ub")]:
        return Result(BAD, "the program ends with a %s: %s" % (bad[0].kind, bad[0].detail), len(a), vis)
    if unk or unk2:
        return Result(UNK, unk or unk2, len(a), vis)
    x, y = sorted((o.value for o in a if o.kind == "return"), key=repr), sorted((o.value for o in b if o.kind == "return"), key=repr)
    if x != y:
        d = [(u, w) for u, w in zip(x, y) if u != w][:1]
        k = [(u, w) for u, w in zip(*d[0]) if u != w][:1] if d else (len(x), len(y))
        return Result(BAD, "the run differs from a direct one: %s" % str(k)[:400], len(a), vis)
    return Result(OK, "", len(a), vis)


def written(I):
    """The text on standard output."""
    out = StrV()
    for t in I.trace:
        if t[0] == "write" and t[1] == "Stdout":
            out = out + (t[2] if isinstance(t[2], StrV) else StrV((t[2],)))
    return repr(out)
