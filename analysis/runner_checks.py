"""Properties of the runner (C29-C31): its public functions are interpreted over a model of LLVM's Rust binding.

LLVM cannot be built here, so the runner is type-checked against stubs/inkwell, which says for every call the runner makes
what LLVM would answer for a given program and surroundings; stubs/probe holds the scenarios. Both are interpreted like the
code under analysis and never run."""
import extract
import interp
import mir
import models
import backlab
from dom import A, lift
from engine import BAD, OK, UNK, MissingAnchor, Result
from interp import Agg, FnItem, NatV, Poly, Ref, StrV, Unsupported, VecV

_R = {}
LEGACY_ONLY = ["__quantum__rt__array_start_record_output", "__quantum__rt__array_end_record_output",
               "__quantum__rt__tuple_start_record_output", "__quantum__rt__tuple_end_record_output"]
OUTPUT_BOTH = ["__quantum__rt__bool_record_output", "__quantum__rt__double_record_output", "__quantum__rt__int_record_output",
               "__quantum__rt__result_record_output"]
M, MZ = "__quantum__qis__m__body", "__quantum__qis__mz__body"
SLICE = "quantum__rt__array_slice_1d"        # its declaration has a trailing force-copy flag that the implementation ignores
MAXP = 8


def runner():
    if "B" not in _R:
        try:
            out = extract.extract_runner()
        except extract.ExtractError as e:
            raise Unsupported("the runner does not type-check against the model of LLVM: " + str(e).strip().split("\n")[-1][:300])
        P = mir.Program(out, extra=("inkwell", "runner", "probe"))
        _R["B"] = backlab.Back(P)
    return _R["B"]


def cs(s):
    return lambda I: NatV("CStr", I.alloc(StrV((s + "\0",)), "k"))


def text(s):
    return lambda I: StrV((s,))


def raw(b):
    return lambda I: Ref(I.alloc(VecV(b), "b"))


def opt(x):
    return lambda I: models.NONE if x is None else models.opt(x(I) if callable(x) else x)


def arr(xs):
    return lambda I: VecV(xs)


SEED = A("usym", "seed")


def scenario(name, args, after=None):
    """All abstract paths of one scenario: [(value, extra)] plus why some of it could not be followed."""
    B = runner()

    def entry(I):
        v = B.pub(I, "probe::" + name, *[a(I) if callable(a) else a for a in args])
        return v, I, (after(B, I) if after else None)
    outs, comp = interp.explore(B.P, models, entry, {}, max_paths=200)
    got, ended, unk, seen = [], [], None, set()
    for o in outs:
        if o.interp is not None:
            seen |= o.interp.visited
        if o.kind == "return":
            got.append(o.value)
        elif o.kind in ("unsupported", "cut"):
            unk = unk or "%s" % o.detail
        else:
            ended.append("%s: %s" % (o.kind, o.detail))
    return got, ended, unk if unk or comp else "not every path was followed", seen, len(outs)


class Seen:
    """What one run showed."""
    def __init__(self, v):
        f = v.f
        r = f[0]
        self.ok = r.name == "Ok"
        self.err = None if self.ok else r.f[0]
        self.text = as_bytes(f[1])
        self.events = [(e.name,) + tuple(e.f) for e in f[2].items]
        self.source, self.source_len, self.path = f[3], f[4], f[5]

    def mapped(self):
        return [(e[1].lit(), e[2]) for e in self.events if e[0] == "Mapped"]

    def ran(self):
        return [e[1].lit() for e in self.events if e[0] == "Ran"]


def as_bytes(v):
    t = models.cmodels.bytes_text(v.items) if isinstance(v, VecV) else v
    if not isinstance(t, StrV):
        raise Unsupported("output %s" % interp.short(v))
    s = t.lit()
    if s is None:
        raise Unsupported("output of unknown content")
    return s


def decide(name, args, rule):
    """rule(seen, extra) -> complaint or None, on every path."""
    got, ended, unk, vis, n = scenario(name, args)
    for v, I, x in got:
        e = rule(Seen(v))
        if e:
            return Result(BAD, e, n, vis)
    if ended:
        return Result(BAD, "the runner ends with a %s" % ended[0], n, vis)
    if unk:
        return Result(UNK, "unsupported: " + unk, n, vis)
    return Result(OK, "", n, vis)


# ------------------------------------------------------------------ C29: binding
def target(B, item):
    """Which implementation an address stands for: (path, body) or None."""
    if isinstance(item, FnItem):
        f = B.P.resolve(item.fn) if item.fn is not None else None
        return (f.p if f is not None else item.path), f
    return None


def implementations():
    """name -> {declared parameter count: predicate on the bound function}."""
    B = runner()
    out = {}
    for n, e in B.P.exports.items():
        f = B.P.resolve(e["fn"])
        if f is None:
            continue
        out[n] = {f.argc: ("current", f)}
    for n in LEGACY_ONLY + OUTPUT_BOTH:
        c = [fs[0] for p, fs in B.P.by_path.items() if p.rsplit("::", 1)[-1] == n and "legacy" in p]
        if len(c) == 1:
            out.setdefault(n, {})[c[0].argc] = ("legacy", c[0])
    if M in out and MZ in out:
        out[M][2] = list(out[MZ].values())[0]
    if SLICE in out:
        k, = out[SLICE]
        out[SLICE] = {k + 1: out[SLICE][k]}
    return out


def bound(s, name, want):
    """A program whose only declaration is `name`: exactly this function is bound to it."""
    B = runner()
    m = s.mapped()
    if not s.ok:
        return "rejected: %s" % interp.short(s.err)
    if [x for x, _ in m] != [name]:
        return "bound %s" % ([x for x, _ in m] or "nothing")
    t = target(B, m[0][1])
    if t is None or t[1] is None:
        raise Unsupported("address %s" % interp.short(m[0][1]))
    if t[0] == want.p:
        return None
    known = {f.p for d in _R["impl"].values() for _, f in d.values()}
    if t[0] in known:
        return "bound to %s instead of %s" % (t[0], want.p)
    raise Unsupported("bound to %s, which is not an exported function; whether it behaves like %s is not decided" % (t[0], want.p))


def refused(s, what):
    if s.ok:
        return "%s is accepted" % what
    if s.ran():
        return "%s is reported only after a shot ran" % what
    return None


def obligations_C29(prog, tier):
    B = runner()
    impl = _R["impl"] = implementations()
    obs = []

    def add(name, call, args, rule):
        obs.append((name, "runner bind_functions", lambda: decide(call, args, rule)))
    for n in sorted(impl):
        forms = impl[n]
        for k in range(MAXP + 1):
            args = [cs(n), text(n), k]
            if k in forms:
                add("bind:%s/%d" % (n, k), "bind", args, lambda s, n=n, f=forms[k][1]: bound(s, n, f))
            else:
                add("bind:%s/%d" % (n, k), "bind", args, lambda s, n=n, k=k: refused(s, "a declaration of %s with %d parameters" % (n, k)) or
                    ("a refused declaration is bound" if s.mapped() else None))
        k = sorted(forms)[0]
        add("defined:" + n, "defines", [cs(n), text(n), k], lambda s, n=n: "a function the program defines itself is replaced" if s.mapped() else
            None if s.ok else "a program that defines %s itself is rejected: %s" % (n, interp.short(s.err)))
        for near in {n[:-1], n + "_", n.upper(), "x" + n, n.replace("__body", "__adj") if n.endswith("__body") else n + "__adj", n[2:]} - set(impl):
            add("unknown:" + near, "bind", [cs(near), text(near), k], lambda s, near=near: refused(s, "the unknown function %s" % near))
    for n in ("llvm.memcpy.p0.p0.i64", "llvm.lifetime.start", "llvm.x__quantum__rt__fail"):
        add("intrinsic:" + n, "bind", [cs(n), text(n), 3], lambda s: "an LLVM intrinsic is bound" if s.mapped() else None if s.ok else "an LLVM intrinsic is rejected")
    for n in ("llvm", "printf", "malloc", "main2", "_llvm.x"):
        add("unknown:" + n, "bind", [cs(n), text(n), 1], lambda s, n=n: refused(s, "the unknown function %s" % n))
    # two declarations in one program
    outs = [(n, k, impl[n][k]) for n in LEGACY_ONLY + OUTPUT_BOTH + ["__quantum__rt__array_record_output", "__quantum__rt__tuple_record_output"] if n in impl for k in impl[n]]
    both = set(LEGACY_ONLY + OUTPUT_BOTH)
    for n, k, (form, f) in outs:
        for n2, k2, (form2, f2) in outs:
            if n == n2:
                continue

            def rule(s, n=n, n2=n2, form=form, form2=form2):
                if n in both and n2 in both and form != form2:
                    return refused(s, "a program with the %s form of %s and the %s form of %s" % (form, n, form2, n2))
                if form != form2:
                    return None        # only the functions with two forms are recognised
                if not s.ok:
                    return "rejected: %s" % interp.short(s.err)
                return None if sorted(x for x, _ in s.mapped()) == sorted([n, n2]) else "bound %s" % [x for x, _ in s.mapped()]
            add("two:%s/%d,%s/%d" % (n, k, n2, k2), "bind_two", [cs(n), text(n), k, cs(n2), text(n2), k2], rule)
    names = sorted(impl)
    for i, n in enumerate(names):
        n2 = names[(i * 7 + 3) % len(names)]
        if n2 == n or n in both and n2 in both:
            continue
        k, k2 = max(impl[n]), max(impl[n2])

        def rule(s, n=n, n2=n2, f=impl[n][k][1], f2=impl[n2][k2][1]):
            if not s.ok:
                return "rejected: %s" % interp.short(s.err)
            m = {x: target(runner(), a) for x, a in s.mapped()}
            if sorted(m) != sorted([n, n2]) or len(s.mapped()) != 2:
                return "bound %s" % sorted(m)
            for x, g in ((n, f), (n2, f2)):
                if m[x] is None or m[x][1] is None:
                    raise Unsupported("address of " + x)
                if m[x][0] != g.p and m[x][0] in {h.p for d in impl.values() for _, h in d.values()}:
                    return "%s is bound to %s" % (x, m[x][0])
            return None
        add("two:%s,%s" % (n, n2), "bind_two", [cs(n), text(n), k, cs(n2), text(n2), k2], rule)
        bad = "__quantum__qis__nosuchgate__body"
        add("one-of-two-unknown:" + n, "bind_two", [cs(n), text(n), k, cs(bad), text(bad), 1], lambda s: refused(s, "an unknown function beside a known one"))
        add("one-of-two-mismatched:" + n, "bind_two", [cs(n2), text(n2), k2, cs(n), text(n), MAXP], lambda s: refused(s, "a mismatched declaration beside a matching one"))
    return obs


# ------------------------------------------------------------------ C30: shots
IR = b"; a module"
META = {0: [("entry_point", "")], 1: [("entry_point", ""), ("required_num_qubits", "2"), ("output_labeling_schema", "schema_id")],
        2: [("EntryPoint", "")], 3: [("entry_point", ""), ("required_num_qubits", "2"), ("output_labeling_schema", "schema_id")]}


def sim_after(B, I):
    L = B.sim
    rows, n = L.get_state(I, B.simref(I))
    draws = [(t[1], repr(t[2])) for t in I.trace if t[0] == "random"]
    return repr([(k, c) for k, c in rows]), n, draws


def plain_after(B, I):
    return None


def check_shots(call, args, prog, shots, seed):
    got, ended, unk, vis, n = scenario(call, args, sim_after if shots else plain_after)
    ref, ended2, unk2, _, _ = scenario("directly", [shots, opt(seed), prog], sim_after if shots else plain_after)
    frame = "START\n" + "".join("METADATA\t%s%s\n" % (k, "\t" + v if v else "") for k, v in META[prog])
    want = []
    for v, I, x in ref:
        recs = [as_bytes(t) for t in v.items]
        want.append(("".join(frame + t + "END\t0\n" for t in recs), x))
    have = []
    for v, I, x in got:
        s = Seen(v)
        if not s.ok:
            return Result(BAD, "the run fails: %s" % interp.short(s.err), n, vis)
        if s.ran() != ["main"] * shots:
            return Result(BAD, "%d shots ran %s" % (shots, s.ran()), n, vis)
        have.append((s.text, x))
    if ended and not ended2:
        return Result(BAD, "the runner ends with a %s" % ended[0], n, vis)
    if unk or unk2 or ended2:
        return Result(UNK, "unsupported: %s" % (unk or unk2 or ended2[0]), n, vis)
    a, b = sorted(have, key=repr), sorted(want, key=repr)
    if [t for t, _ in a] != [t for t, _ in b]:
        k = [i for i in range(min(len(a), len(b))) if a[i][0] != b[i][0]][:1]
        return Result(BAD, "the run prints %r, required %r" % ((a[k[0]][0], b[k[0]][0]) if k else (len(a), len(b))), n, vis)
    if a != b:
        return Result(BAD, "the shots leave the simulator or its generator in another state than the program run alone: %s, required %s" % (
            [x for x in a if x not in b][:1], [x for x in b if x not in a][:1]), n, vis)
    return Result(OK, "", n, vis)


def obligations_C30(prog, tier):
    runner()
    obs = []
    for p in META:
        for shots in (0, 1, 2, 3) if p != 3 else (0, 1, 2):
            for seed in (None, SEED):
                for want in (None, "main"):
                    w = opt(text(want) if want else None)
                    calls = [("bytes", [raw(IR), w, shots, opt(seed), p, 0]), ("file", [text("prog.ll"), w, shots, opt(seed), p, 0])]
                    if tier == "thorough" or want is None:
                        calls += [("input", [opt(raw(IR)), w, shots, opt(seed), p, 0]), ("file", [text("dir/prog.bc"), w, shots, opt(seed), p, 0])]
                        if seed is None:
                            calls.append(("bitcode", [raw([0x42, 0x43, 0xC0, 0xDE, 1, 2]), w, shots, p, 0]))
                    for i, (c, a) in enumerate(calls):
                        obs.append(("shots:%s%d/program%d/x%d/%s/%s" % (c, i, p, shots, "seeded" if seed is not None else "unseeded", want or "any"), "runner run_module",
                                    lambda c=c, a=a, p=p, shots=shots, seed=seed: check_shots(c, a, p, shots, seed)))
    for shots in (5, 10, 40):
        obs.append(("shots:bytes/program1/x%d" % shots, "runner run_module", lambda shots=shots: check_shots("bytes", [raw(IR), opt(None), shots, opt(SEED), 1, 0], 1, shots, SEED)))
    # seeds at the ends of their range
    for seed in (0, 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        for p in (1, 3):
            for c, src in (("bytes", raw(IR)), ("file", text("prog.ll")), ("input", opt(raw(IR))), ("file", text("prog.bc"))):
                obs.append(("seeded:%s/program%d/%d" % (c, p, seed), "runner " + c, lambda c=c, src=src, p=p, seed=seed:
                            check_shots(c, [src, opt(None), 1, opt(seed), p, 0], p, 1, seed)))
    # which of several functions is the entry point
    kinds = {0: "other", 1: "entry_point", 2: "EntryPoint", 3: "plain"}
    for a in kinds:
        for b in kinds:
            for c in kinds:
                for want in (None, "A", "B", "C", "D", "a"):
                    cand = [x for x, k in zip("ABC", (a, b, c)) if k in (1, 2) and want in (None, x)]

                    def rule(s, cand=cand):
                        if len(cand) != 1:
                            return refused(s, "a program with %d matching entry points" % len(cand))
                        if not s.ok:
                            return "rejected: %s" % interp.short(s.err)
                        return None if s.ran() == cand * 2 else "ran %s instead of %s" % (s.ran(), cand[0])
                    obs.append(("entry:%s,%s,%s/%s" % (kinds[a], kinds[b], kinds[c], want), "runner choose_entry_point",
                                lambda a=a, b=b, c=c, want=want, rule=rule: decide("entry", [arr([a, b, c]), arr([0, 0, 0]), opt(text(want) if want else None), 2], rule)))
    return obs


# ------------------------------------------------------------------ C31: failures are reported
BROKEN = {1: "an unreadable file", 2: "text that does not parse", 3: "bitcode that does not parse", 4: "no native target", 5: "an unknown target triple",
          6: "no assembly back end", 7: "no target machine", 8: "a target machine that cannot be created", 9: "failing passes", 10: "an execution engine that cannot be created",
          11: "a module that does not verify"}
MEMORY, IR_FILE, BC_FILE = 3, 1, 2


def fails(s, what):
    if s.ok:
        return "%s is reported as success" % what
    if s.ran():
        return "%s is reported only after a shot ran" % what
    if s.text:
        return "%s is reported only after output %r" % (what, s.text[:80])
    if isinstance(s.err, StrV) and not s.err.parts:
        return "%s is reported without a description" % what
    return None


def works(s, shots, source=None, length=None):
    if not s.ok:
        return "rejected: %s" % interp.short(s.err)
    if s.ran() != ["main"] * shots:
        return "ran %s" % s.ran()
    if source is not None and s.source != source:
        return "the program was read in the wrong way"
    if length is not None and s.source_len != length:
        return "%s of %d bytes were given to the parser" % (s.source_len, length)
    if not any(e[0] == "Verified" for e in s.events):
        return "the module is run without being verified"
    names = [e[0] for e in s.events]
    if shots and names.index("Verified") > names.index("Ran"):
        return "the module is verified only after a shot ran"
    return None


def obligations_C31(prog, tier):
    runner()
    obs = []

    def add(name, call, args, rule):
        obs.append((name, "runner run_module", lambda: decide(call, args, rule)))
    for shots in (0, 1, 3):
        w, sd = opt(None), opt(None)
        for b, what in BROKEN.items():
            f = lambda s, what=what: fails(s, what)
            for path in ("p.ll", "p.bc", "a.b/c.ll"):
                if b == 2 and path.endswith("bc") or b == 3 and path.endswith("ll"):
                    add("sound:file(%s)x%d|%s" % (path, shots, what), "file", [text(path), w, shots, sd, 1, b], lambda s, shots=shots: works(s, shots))
                else:
                    add("broken:file(%s)x%d|%s" % (path, shots, what), "file", [text(path), w, shots, sd, 1, b], f)
            if b not in (1, 3):
                add("broken:bytes x%d|%s" % (shots, what), "bytes", [raw(IR), w, shots, sd, 1, b], f)
                add("broken:input x%d|%s" % (shots, what), "input", [opt(raw(IR)), w, shots, sd, 1, b], f)
                add("broken:bitcode x%d|%s" % (shots, what), "bitcode", [raw([0xDE, 0xC0, 0x17, 0x0B, 9, 9]), w, shots, 1, b], f)
        for path in ("p", "p.", "p.txt", "p.LL", "ll", ".ll", "bc", ".bc", "p.ll.txt", "p.bcx", "dir.ll/p", "", "p.b"):
            add("extension:%r x%d" % (path, shots), "file", [text(path), w, shots, sd, 1, 0], lambda s, path=path: fails(s, "the file name %r" % path))
        for path, src in (("p.ll", IR_FILE), ("p.bc", BC_FILE), ("x.bc.ll", IR_FILE), ("x.ll.bc", BC_FILE), ("/a/b.c/d.ll", IR_FILE), ("..bc", BC_FILE)):
            add("accepted:%r x%d" % (path, shots), "file", [text(path), w, shots, sd, 1, 0], lambda s, src=src, shots=shots: works(s, shots, src))
        for n in range(4):
            for call, arg in (("bytes", raw(IR[:n])), ("input", opt(raw(IR[:n])))):
                add("short:%s %d bytes x%d" % (call, n, shots), call, [arg, w, shots, sd, 1, 0], lambda s, n=n: fails(s, "an input of %d bytes" % n))
            add("short:bitcode %d bytes x%d" % (n, shots), "bitcode", [raw([0x42, 0x43, 0xC0, 0xDE][:n]), w, shots, 1, 0], lambda s, n=n: fails(s, "bitcode of %d bytes" % n))
        add("unreadable input x%d" % shots, "input", [opt(None), w, shots, sd, 1, 0], lambda s: fails(s, "an unreadable input"))
        for data in ([0x42, 0x43, 0xC0, 0xDE], [0xDE, 0xC0, 0x17, 0x0B, 1, 2, 3], IR, IR + b"\0", b"BC\xc0", b"    ", list(range(1, 60)), [0xDE, 0xC0, 0x17, 0x0A, 5]):
            if len(data) < 4:
                continue
            for call, arg in (("bytes", raw(data)), ("input", opt(raw(data)))):
                add("accepted:%s %s x%d" % (call, bytes(data[:8]), shots), call, [arg, w, shots, sd, 1, 0], lambda s, shots=shots, n=len(data): works(s, shots, MEMORY, n))
        for want in ("nothere", "", "mai", "main2"):
            add("entry-missing:%r x%d" % (want, shots), "bytes", [raw(IR), opt(text(want)), shots, sd, 1, 0], lambda s, want=want: fails(s, "the entry point name %r" % want))
        add("entry-ambiguous x%d" % shots, "bytes", [raw(IR), w, shots, sd, 4, 0], lambda s: fails(s, "an ambiguous entry point"))
        add("entry-none x%d" % shots, "entry", [arr([0, 3, 0]), arr([0, 0, 0]), w, shots], lambda s: fails(s, "a program without entry points"))
        for k in (1, 2, 5):
            add("entry-parameters:%d x%d" % (k, shots), "entry", [arr([0, 1, 0]), arr([0, k, 0]), w, shots], lambda s, k=k: fails(s, "an entry point with %d parameters" % k))
            add("entry-parameters:%d of two x%d" % (k, shots), "entry", [arr([1, 1, 0]), arr([0, k, 0]), opt(text("B")), shots], lambda s, k=k: fails(s, "an entry point with %d parameters" % k))
            add("entry-other-parameters:%d x%d" % (k, shots), "entry", [arr([0, 1, 0]), arr([k, 0, k]), w, shots], lambda s, shots=shots: None if s.ok and s.ran() == ["B"] * shots else "an entry point beside functions with parameters is not run: %s" % interp.short(s.err))
    return obs
