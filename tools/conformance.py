#!/usr/bin/env python3
"""Self-test of the analyser's transfer functions (not a check).

In a scratch copy of /repo, adds conformance/probe.rs to the simulator crate, executes every probe natively, interprets the
same functions with the analyser, and compares. Usage: conformance.py [name-filter]
"""
import json, math, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import seed
d = seed.copy("conf")
os.environ["VERIF_REPO"] = d + "/repo"
os.environ["VERIF_BUILD"] = d + "/build"
src = open(os.path.join(VERIF, "tools/conformance/probe.rs")).read()
names = re.findall(r"^pub fn ([ps]_\w+)\(\)", src, re.M)
t = "\n#[test]\nfn dump_probes() {\n" + "".join('    println!("@@%s {:?}", std::panic::catch_unwind(|| %s()).map_err(|_| ()));\n' % (n, n) for n in names) + "}\n"
open(d + "/repo/sparsesim/src/probe.rs", "w").write(src.replace("#![allow", "#![allow") + "\n")
l = open(d + "/repo/sparsesim/src/lib.rs").read()
l = l.replace("pub mod exp;", "#[allow(warnings, clippy::all, clippy::pedantic)]\npub mod probe;\n#[cfg(test)]\n#[allow(warnings)]\nmod probe_run {\n use crate::probe::*;\n %s\n}\npub mod exp;" % t, 1)
open(d + "/repo/sparsesim/src/lib.rs", "w").write(l)
env = dict(seed.ENV, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_PROFILE_DEV_DEBUG="line-tables-only")
rc, o = seed.sh("cargo test -p quantum-sparse-sim --lib --offline dump_probes -- --nocapture", os.path.join(d, "ws"), env)
real = dict(re.findall(r"@@(\w+) (.*)", o))
if not real:
    print(o[-6000:])
    sys.exit(1)
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.setrecursionlimit(20000)
import dom, engine, interp, models, traceback
prog = engine.program()
flt = sys.argv[1] if len(sys.argv) > 1 else ""


def number(x):
    """A value as a number: what the analyser keeps symbolic (square roots, sines, roundings) is evaluated."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, models.Poly):
        return x.const() if x.is_const() else evaluate(x)
    return x


FN = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), "sin": math.sin, "cos": math.cos,
      "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "exp": math.exp,
      "ln": math.log, "log2": math.log2, "log10": math.log10, "exp2": lambda v: 2 ** v, "exp_m1": math.expm1, "ln_1p": math.log1p, "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3), v),
      "sqrt": math.sqrt, "atan2": math.atan2, "powf": lambda a, b: a ** b, "pow": lambda a, b: a ** b, "hypot": math.hypot, "fract": lambda v: v - math.trunc(v), "abs": abs,
      "log": lambda a, b: math.log(a) / math.log(b), "frem": math.fmod, "max": max, "min": min, "rem_euclid": lambda a, b: a - abs(b) * math.floor(a / abs(b)),
      "copysign": math.copysign, "signum": lambda v: math.copysign(1.0, v), "rem": math.fmod, "mul_add": lambda a, b, c: a * b + c}


def evaluate(p):
    if isinstance(p, (int, float)):
        return p
    if not isinstance(p, models.Poly):
        raise ValueError(repr(p))
    t = 0.0
    for mono, c in p.d.items():
        v = float(c)
        for a, e in mono:
            v *= atom(a) ** float(e)
        t += v
    return t


def atom(a):
    if a.kind == "const":
        return {"pi": math.pi, "inf": math.inf, "nan": math.nan}[a.key]
    if a.kind == "fn":
        args = [x for x in a.key[1:] if not isinstance(x, str)]
        return FN[a.key[0]](*[evaluate(x) for x in args])
    if a.kind == "pow":
        return evaluate(a.key)
    if a.kind in FN:
        k = a.key if isinstance(a.key, tuple) else (a.key,)
        return FN[a.kind](*[evaluate(x) for x in k])
    v = dom.approx(models.Poly({((a, 1),): 1}))
    if v is None:
        raise ValueError(repr(a))
    return v


def plain(v):
    if isinstance(v, models.StrV):
        return v.lit() if v.lit() is not None else repr(v)
    return [number(x) for x in v.items]


bad = 0
for n in names:
    if flt not in n:
        continue
    fs = prog.by_path.get("quantum_sparse_sim::probe::" + n)
    exp = real[n]
    if not fs:
        print("no body", n)
        bad += 1
        continue

    def entry(I):
        v = I.run_body(fs[0], [])
        return plain(I.deref(v) if not isinstance(v, (models.VecV, models.StrV)) else v)
    try:
        outs, comp = interp.explore(prog, models, entry)
    except Exception:
        print("ERROR", n, traceback.format_exc()[-600:])
        bad += 1
        continue
    want = None if exp == "Err(())" else json.loads(exp[3:-1])
    for o_ in outs:
        if o_.kind == "return":
            got = o_.value
            if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
                if all(g == w or (isinstance(g, float) and abs(g - w) <= 1.01) for g, w in zip(got, want)):
                    continue
            if got != want:
                bad += 1
                if isinstance(want, list) and isinstance(got, list) and len(got) == len(want):
                    print("DIFF", n, [(i, str(g)[:60], w) for i, (g, w) in enumerate(zip(got, want)) if g != w][:12])
                else:
                    print("DIFF", n, "got", repr(got)[:300], "want", repr(want)[:300])
        else:
            bad += 1
            print(o_.kind, n, (o_.detail or "")[:260], "|", (o_.detail or "")[-200:] if len(o_.detail or "") > 460 else "")
print("%d probes, %d disagreements" % (len([n for n in names if flt in n]), bad))
