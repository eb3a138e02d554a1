#!/usr/bin/env python3
"""Mechanical mutation of the crates in scratch copies: which changes that the tests accept do the checks report?

mutants.py gen OUT.json                 list of mutants (file, line, new text)
mutants.py survive IN.json OUT.json     those that build and pass the tests
mutants.py check IN.json OUT.jsonl      run the checks on each; stops at the first that reports it
Not part of any check.
"""
import json, os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed

FILES = ["sparsesim/src/lib.rs", "sparsesim/src/exp.rs", "sparsesim/src/index_map.rs", "sparsesim/src/nearly_zero.rs",
         "backend/src/lib.rs", "backend/src/exp.rs", "backend/src/result_bool.rs",
         "stdlib/src/arrays.rs", "stdlib/src/bigints.rs", "stdlib/src/callables.rs", "stdlib/src/lib.rs", "stdlib/src/math.rs",
         "stdlib/src/output_recording.rs", "stdlib/src/range_support.rs", "stdlib/src/strings.rs", "stdlib/src/tuples.rs"]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
       (r" >= ", " > "), (r" < ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
       (r" \^ ", " | "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= "), (r" \^= ", " |= "), (r" % ", " / "), (r" / ", " * "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif (?!let)(.+) \{", r"if !(\1) {"), (r"\bwhile (?!let)(.+) \{", r"while !(\1) {"),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.rev\(\)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
       (r"\.filter\(", ".skip_while("), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.abs\(\)", ""), (r"\.adjoint\(\)", ""), (r"\.conj\(\)", ""),
       (r"\.clone\(\)\.", "."), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bPauli::X\b", "Pauli::Y"), (r"\bPauli::Y\b", "Pauli::Z"), (r"\bPauli::Z\b", "Pauli::X"),
       (r"\.insert\(", ".remove("), (r"\.push\(", ".contains("), (r"!(\w)", r"\1"), (r"-(?=[a-z(])", ""), (r"\bone\(\)", "zero()"), (r"\bzero\(\)", "one()"),
       (r"\.sqrt\(\)", ""), (r"\.cos\(\)", ".sin()"), (r"\.sin\(\)", ".cos()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(2)"),
       (r"\.drain\(\.\.\)", ".drain(..1)"), (r"\.get\(", ".get_mut("), (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"continue;", "break;"), (r"break;", "continue;"),
       (r"\bi64\b", "i32"), (r"\busize\b", "u32"), (r"\bu64\b", "u32"), (r"\.unwrap_or\((\w+)\)", r".unwrap_or(\1 + 1)"),
       (r"OpCode::Ry", "OpCode::Rx"), (r"\.truncate\(", ".reserve("), (r"Ordering::Less", "Ordering::Greater")]


def body(path):
    ls = open("/repo/" + path).read().split("\n")
    n = next((i for i, l in enumerate(ls) if "#[cfg(test)]" in l and "mod tests {" in "".join(ls[i + 1:i + 3])), len(ls))
    return ls, n


def gen():
    out = []
    for f in FILES:
        ls, n = body(f)
        for i in range(n):
            l = ls[i]
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "/*", "*")):
                continue
            seen = set()

            def put(new, how):
                if new != l and new not in seen:
                    seen.add(new)
                    out.append({"file": f, "line": i, "new": new, "how": how, "old": s})
            for a, b in OPS:
                for m in re.finditer(a, l):
                    put(l[:m.start()] + m.expand(b) + l[m.end():], a)
            for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"x])", l):
                v = int(m.group(1))
                for w in (v + 1, v - 1) if v else (1,):
                    put(l[:m.start()] + str(w) + l[m.end():], "number")
            for m in re.finditer(r"\((&?\w+), (&?\w+)", l):
                if "fn " not in l:
                    put(l[:m.start()] + "(%s, %s" % (m.group(2), m.group(1)) + l[m.end():], "swap")
            for m in re.finditer(r", (&?\w+), (&?\w+)\)", l):
                if "fn " not in l:
                    put(l[:m.start()] + ", %s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "swap")
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "const", "static", "pub", "type", "extern")) and s.count("(") == s.count(")"):
                put(l[:len(l) - len(l.lstrip())] + ";", "delete")
            if s.endswith(",") and "(" not in s and len(s) > 3 and "=" not in s and ":" not in s:
                pass
    return out


def apply(d, m):
    ls = open("/repo/" + m["file"]).read().split("\n")
    assert ls[m["line"]].strip() == m["old"], m
    ls[m["line"]] = m["new"]
    open(os.path.join(d, "repo", m["file"]), "w").write("\n".join(ls))


def restore(d, m):
    open(os.path.join(d, "repo", m["file"]), "w").write(open("/repo/" + m["file"]).read())


def quick_tests(d):
    env = dict(seed.ENV, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_BUILD_JOBS="2")
    ws = os.path.join(d, "ws")
    try:
        rc, o = seed.sh("cargo check --workspace --lib --offline", ws, env)
        if rc:
            return "build"
        rc, o = seed.sh("timeout 60 cargo nextest run --workspace --fail-fast --offline --retries 0 --test-threads 2 --user-config-file none", ws, env, 200)
    except subprocess.TimeoutExpired:
        return "time"
    stable = {s.split("::", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    fails = {l.split()[-1] for l in o.splitlines() if re.match(r"\s*(FAIL|SIGABRT|SIGSEGV|ABORT|SIG)", l)}
    if fails & stable or "Summary" not in o:
        return "killed"
    return None


def survive(ms, out, slots=8):
    import queue
    q = queue.Queue()
    for m in ms:
        q.put(m)
    good = []

    def work(k):
        d = seed.copy("m%d" % k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(d, m)
            r = quick_tests(d)
            restore(d, m)
            m["tests"] = r
            if r is None:
                good.append(m)
            with open(out + ".log", "a") as f:
                f.write(json.dumps(m) + "\n")
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(work, range(slots)))
    json.dump(good, open(out, "w"))


ORDER = {"sparsesim": "C03 C05 C09 C07 C08 C02 C04 C01 C12 C06", "backend": "C11 C13 C10 C12 C15 C14 C08 C16 C18",
         "stdlib": "C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C16 C17"}


def check(ms, out, slots=4):
    import queue
    os.environ.setdefault("VERIF_STOP", "0.12")
    q = queue.Queue()
    for m in ms:
        q.put(m)
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(lambda k: check_slot(q, out, k), range(slots)))


def check_slot(q, out, k):
    d = seed.copy("mc%d" % k)
    while not q.empty():
        m = q.get()
        apply(d, m)
        caught, notes = None, []
        for p in ORDER[m["file"].split("/")[0]].split():
            try:
                rc, o = seed.check(d, [p])[p]
            except subprocess.TimeoutExpired:
                notes.append(p + " timeout")
                continue
            if rc == 1:
                caught = p
                notes.append([l.strip()[:140] for l in o.splitlines() if "broken" in l][:1])
                break
            if rc:
                notes.append("%s exit %d %s" % (p, rc, o[-200:]))
            elif " 0 undecided" not in o:
                notes.append([x for x in o.splitlines()[-1:] if x] and p + " " + o.splitlines()[0][:100])
        restore(d, m)
        m["caught"], m["notes"] = caught, notes
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms = gen()
        random.Random(7).shuffle(ms)
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
    elif sys.argv[1] == "survive":
        survive(json.load(open(sys.argv[2])), sys.argv[3], int(os.environ.get("SLOTS", "8")))
    else:
        check(json.load(open(sys.argv[2])), sys.argv[3])
