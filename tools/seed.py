#!/usr/bin/env python3
"""Scratch-copy tool for planted changes (never touches /repo).

seed.py test ID [PROP...]   apply seeded/ID/patch.diff in a scratch copy: build, tests, demo both ways, then the checks
seed.py check PATCH PROP... apply a patch file in a scratch copy and run only the checks
seed.py quiet PATCH PROP... the same for a behaviour-preserving edit: tests first, then the checks
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/seedwork"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_HOME="/root/.cargo",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy(slot):
    d = os.path.join(ROOT, slot)
    os.makedirs(d, exist_ok=True)
    rc, o = sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/ 2>/dev/null || (rm -rf %s/repo && mkdir -p %s/repo && tar -C /repo --exclude=./target --exclude=./.git -cf - . | tar -C %s/repo -xf -)" % (d, d, d, d))
    # cargo goes by modification times: what a previous run patched here must be rebuilt
    sh("find %s/repo -name '*.rs' -o -name '*.toml' | xargs touch" % d)
    ws = os.path.join(d, "ws")
    os.makedirs(ws, exist_ok=True)
    for m in ("backend", "sparsesim", "stdlib", ".cargo"):
        l = os.path.join(ws, m)
        if not os.path.islink(l):
            os.symlink(os.path.join(d, "repo", m), l)
    t = re.sub(r'"(runner|pip)"\s*,?', "", open(os.path.join(d, "repo", "Cargo.toml")).read())
    open(os.path.join(ws, "Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(d, "repo", "Cargo.lock"), ws)
    return d


def tests(d):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    rc, o = sh("cargo test --workspace --all-targets --no-run --offline", os.path.join(d, "ws"), env)
    if rc:
        return "does not build: " + o[-1500:]
    rc, o = sh("cargo nextest run --workspace --no-fail-fast --offline --retries 0 --test-threads 8 --user-config-file none", os.path.join(d, "ws"), env)
    stable = {s.split("::", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    fails = {l.split()[-1] for l in o.splitlines() if re.match(r"\s*(FAIL|SIGABRT|SIGSEGV|ABORT)", l)}
    bad = fails & stable
    if bad or "Summary" not in o:
        return "tests fail: %s %s" % (sorted(bad), "" if "Summary" in o else o[-800:])
    return None


def check(d, props, tier="quick"):
    env = dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_BUILD=os.path.join(d, "build"), VERIF_EVIDENCE=os.path.join(d, "evidence"))
    out = {}
    for p in props:
        rc, o = sh("python3 %s/check.py %s %s" % (VERIF, p, tier), VERIF, env)
        out[p] = (rc, o)
    return out


def report(res):
    for p, (rc, o) in res.items():
        ls = o.splitlines()
        print("  check %s -> exit %d %s" % (p, rc, "CAUGHT" if rc == 1 else "quiet" if rc == 0 else "ERROR"))
        n = 0
        for l in ls:
            if "broken:" in l or "undecided:" in l or (rc not in (0, 1)):
                n += 1
                if n <= 3:
                    print("     " + l[:260])


def main():
    slot = os.environ.get("SLOT", "a")
    mode, what, props = sys.argv[1], sys.argv[2], sys.argv[3:]
    d = copy(slot)
    if mode in ("check", "quiet"):
        rc, o = sh("git apply %s" % os.path.abspath(what), os.path.join(d, "repo"))
        if rc:
            print("patch does not apply", o); return 2
        if mode == "quiet":
            print(what, "tests:", tests(d) or "pass")
        report(check(d, props)); return 0
    sd = os.path.join(VERIF, "seeded", what)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    props = props or [meta["property"]]
    env = dict(ENV)
    rc0, o0 = sh("bash %s/demo.sh" % sd, os.path.join(d, "repo"), env)
    rc, o = sh("git apply %s/patch.diff" % sd, os.path.join(d, "repo"))
    if rc:
        print(what, "patch does not apply", o); return 2
    t = tests(d)
    rc1, o1 = sh("bash %s/demo.sh" % sd, os.path.join(d, "repo"), env)
    ok = rc0 == 0 and rc1 != 0 and t is None
    print("%s: demo clean=%d patched=%d tests=%s -> %s" % (what, rc0, rc1, t or "pass", "VALID" if ok else "INVALID"))
    if rc0:
        print(o0[-1500:])
    elif not ok:
        print(o1[-600:])
    report(check(d, props))
    return 0


if __name__ == "__main__":
    sys.exit(main())
