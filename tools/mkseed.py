"""mk(id, property, edits, demo, needs, breaks): writes seeded/<id>/ from (file, old, new) edits against /repo."""
import difflib, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd /repo: builds demo.rs against the crates of the current directory in a scratch workspace and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
for m in backend sparsesim stdlib; do ln -s "$repo/$m" "$w/$m"; done
sed -E 's/"(runner|pip)"[[:space:]]*,?//g; s/"stdlib",?/"stdlib", "demo"/' "$repo/Cargo.toml" > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
mkdir -p "$w/demo/src"
cp "$here/demo.rs" "$w/demo/src/main.rs"
cat > "$w/demo/Cargo.toml" <<'EOT'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
quantum-sparse-sim = { path = "../sparsesim" }
qir-stdlib = { path = "../stdlib" }
qir-backend = { path = "../backend" }
num-bigint = { workspace = true }
num-complex = { workspace = true }
ndarray = { workspace = true }
EOT
export PATH="/root/.cargo/bin:$PATH" CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER= CARGO_TERM_COLOR=never
cd "$w" && cargo build -q --offline -p demo 2> "$w/log" || { tail -20 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
'''


def mk(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open("/repo/" + f).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches in %s of %r" % (sid, s.count(old), f, old[:60]))
        by[f] = s.replace(old, new)
    patch = ""
    for f, s in sorted(by.items()):
        a = open("/repo/" + f).read().splitlines(True)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
