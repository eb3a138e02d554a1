"""Builds the driver, type-checks /repo's working tree with it, and returns the directory of the MIR dumps.

Nothing of /repo is executed: `cargo check` type-checks the workspace and the driver writes monomorphised MIR.
The dumps are keyed by the content of every source file that went in, so an unchanged tree is not re-extracted.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
MEMBERS = ["stdlib", "sparsesim", "backend"]
LIBS = {"stdlib": "qir_stdlib", "sparsesim": "quantum_sparse_sim", "backend": "qir_backend"}


class ExtractError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def _sysroot(env):
    rc, out = _run(["rustc", "--print", "sysroot"], env)
    if rc:
        raise ExtractError("no nightly rustc: " + out)
    return out.strip()


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, ".build", "driver")
    rc, out = _run(["cargo", "build", "--offline"], env, os.path.join(VERIF, "driver"))
    if rc:
        raise ExtractError("driver does not build:\n" + out[-4000:])
    return os.path.join(VERIF, ".build", "driver", "debug", "mirdump")


def _hash(extra):
    h = hashlib.sha256()
    files = []
    for m in MEMBERS + ["runner", "pip"]:
        for root, dirs, fs in os.walk(os.path.join(REPO, m)):
            dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".h", ".def", ".py", ".pyi")):
                    files.append(os.path.join(root, f))
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")] + extra
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def _write(p, t):
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f:
            f.write(t)


def _stub_files():
    out = []
    for root, _, fs in os.walk(os.path.join(VERIF, "stubs")):
        out += [os.path.join(root, f) for f in fs if f.endswith((".rs", ".toml"))]
    return out


def _fresh_links(ws, names):
    os.makedirs(ws, exist_ok=True)
    for m, target in names:
        l = os.path.join(ws, m)
        if os.path.islink(l):
            os.unlink(l)
        os.symlink(target, l)


def _check(ws, out, tgt, libs, stopf, drv, crates_re):
    env = _env()
    env["CARGO_TARGET_DIR"] = tgt
    env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(env), "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["MIRDUMP_OUT"] = out
    env["RUSTFLAGS"] = "-Zalways-encode-mir"
    env["MIRDUMP_STOP"] = stopf
    for sub in (".fingerprint", "build"):      # both cargo layouts: force the crates of the workspace to be checked again
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(crates_re, d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc, log = _run(["cargo", "check", "--workspace", "--lib", "--offline"], env, ws)
    with open(os.path.join(out, "log"), "w") as f:
        f.write(log)
    if rc:
        raise ExtractError("the tree does not type-check:\n" + log[-4000:])
    for m in libs:
        if not os.path.exists(os.path.join(out, m + ".json")):
            raise ExtractError("no MIR dump for " + m + "\n" + log[-2000:])
    open(os.path.join(out, "OK"), "w").close()


def extract(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        drv = build_driver()
        stopf = os.path.join(VERIF, "analysis", "stop.txt")
        key = _hash([os.path.join(VERIF, "driver", "src", "main.rs"), stopf])
        out = os.path.join(BUILD, "dump", key)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        shutil.rmtree(os.path.join(BUILD, "dump"), ignore_errors=True)
        os.makedirs(out)
        ws = os.path.join(BUILD, "ws")
        _fresh_links(ws, [(m, os.path.join(REPO, m)) for m in MEMBERS])
        toml = open(os.path.join(REPO, "Cargo.toml")).read()
        toml = re.sub(r'"(runner|pip)"\s*,?', "", toml)
        _write(os.path.join(ws, "Cargo.toml"), toml)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
        _check(ws, out, os.path.join(BUILD, "target"), [LIBS[m] for m in MEMBERS], stopf, drv,
               r"(qir|quantum)[-_]")
        return out


RUNNER_CRATES = ["inkwell", "runner", "probe"]


PIP_CRATES = ["pyo3", "pipprobe"]


def extract_runner(pip=False):
    """The runner as well, type-checked against the model of LLVM's binding in stubs/ (the real one cannot be built here);
    with pip, the Python module's source too, against the model of pyo3."""
    dump, wsn = ("dump3", "ws3") if pip else ("dump2", "ws2")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        drv = build_driver()
        stopf = os.path.join(VERIF, "analysis", "stop_runner.txt")
        key = _hash([os.path.join(VERIF, "driver", "src", "main.rs"), stopf] + _stub_files())
        out = os.path.join(BUILD, dump, key)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        shutil.rmtree(os.path.join(BUILD, dump), ignore_errors=True)
        os.makedirs(out)
        ws = os.path.join(BUILD, wsn)
        _fresh_links(ws, [(m, os.path.join(REPO, m)) for m in MEMBERS + ["runner"] + (["pip"] if pip else [])])
        if os.path.islink(os.path.join(ws, "stubs")):
            os.unlink(os.path.join(ws, "stubs"))
        shutil.rmtree(os.path.join(ws, "stubs"), ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "stubs"), os.path.join(ws, "stubs"), ignore=shutil.ignore_patterns("target"))
        toml = open(os.path.join(REPO, "Cargo.toml")).read()
        toml = re.sub(r'"pip"\s*,?', "", toml)
        toml = toml.replace('"backend",', '"backend", "stubs/inkwell", "stubs/probe",' + (' "stubs/pyo3", "stubs/pyo3-macros", "stubs/pipprobe",' if pip else ""), 1)
        toml = re.sub(r"(?m)^inkwell\s*=.*$", 'inkwell = { path = "stubs/inkwell", features = ["llvm20-1"] }', toml)
        toml = re.sub(r"(?m)^clap\s*=.*$", 'clap = { version = "4.5", default-features = false, features = ["std", "cargo", "help", "usage", "error-context"] }', toml)
        _write(os.path.join(ws, "Cargo.toml"), toml)
        lock = open(os.path.join(REPO, "Cargo.lock")).read().split("[[package]]\n")
        with open(os.path.join(ws, "Cargo.lock"), "w") as f:
            f.write("[[package]]\n".join(p for p in lock if not re.match(r'name = "(inkwell|inkwell_internals|llvm-sys|qirrunner)"', p)))
        _check(ws, out, os.path.join(BUILD, "target2"), [LIBS[m] for m in MEMBERS] + RUNNER_CRATES + (PIP_CRATES if pip else []), stopf, drv,
               r"(qir|quantum)[-_]|(runner|inkwell|probe|pipprobe|pyo3|pyo3[-_]macros)\b")
        return out


if __name__ == "__main__":
    t = time.time()
    print(extract(True), "%.1fs" % (time.time() - t))
