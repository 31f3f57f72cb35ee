"""mkseed.py [filter]: writes /verif/seeded/<id>/ from the definitions in defs*.py.
With -t, verifies each: demo passes on the clean tree, fails with the patch,
and the repository's stable tests pass with it."""
import sys, os, subprocess, shutil, json, tempfile, importlib.util, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "..", "seeded")
DEMO = '''#!/bin/bash
# Builds a small program against the crates of /repo and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d /tmp/demo-XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tests"
: > "$d/src/lib.rs"
cat > "$d/Cargo.toml" <<'EOF'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tcp_tablet_cache_service = { path = "/opt/vp/cargo/tcp_tablet_cache_service" }
tcp_tablet_store_service = { path = "/opt/vp/cargo/tcp_tablet_store_service" }
tcp_runtime = { path = "/opt/vp/cargo/tcp_runtime" }
tcp_proto = { path = "/opt/vp/cargo/tcp_proto" }
prost = { version = "0.14", default-features = false, features = ["derive"] }
slog = { version = "2.2.0", default-features = false }
hashbrown = "0.14"
sha2 = { version = "0.10", default-features = false }
EOF
cp /opt/vp/cargo/Cargo.lock "$d/Cargo.lock"
cp "$here/demo.rs" "$d/tests/demo.rs"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= PROTOC=/usr/bin/protoc
export CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 2
cargo build --offline -q 2>&1 | tail -5
cargo test --offline -q --test demo 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
def defs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "defs*.py"))):
        sp = importlib.util.spec_from_file_location("d", f); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
        out += mod.SEEDS
    return out
def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def make(s):
    d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(["git", "clone", "-q", "--shared", "/repo", tmp + "/r"])
        for file, subs in s["edits"]:
            p = os.path.join(tmp, "r", file); t = open(p).read()
            for o, n in subs:
                assert o in t, (s["id"], o)
                t = t.replace(o, n, 1)
            open(p, "w").write(t)
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", tmp + "/r", "diff"]).stdout)
    finally:
        shutil.rmtree(tmp)
    cur, old = None, set()
    hit = False
    for l in open(os.path.join(d, "patch.diff")).read().splitlines():
        if l.startswith("--- a/"):
            old = set(sh(["git", "-C", "/repo", "show", "48d713a:" + l[6:]]).stdout.splitlines())
        elif l.startswith("-") and l[1:].strip():
            hit = hit or l[1:] in old
    if not hit:
        print(s["id"], "<<<< changes no line of the original repository")
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh", DEMO)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, txt in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(txt)
    if "demo" in s:
        open(os.path.join(d, "demo.rs"), "w").write(open(os.path.join(HERE, "common.rs")).read() + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def test(s):
    d = os.path.abspath(os.path.join(OUT, s["id"]))
    a = sh(["bash", d + "/demo.sh"], cwd="/repo")
    sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        b = sh(["bash", d + "/demo.sh"], cwd="/repo")
        t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json")
        c = sh(["python3", os.path.join(HERE, "../../lib/run.py"), s["property"]], cwd=os.path.join(HERE, "../.."))
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    print(s["id"], s["property"], "clean demo", a.returncode, "patched demo", b.returncode, "tests", t.returncode, "check", c.returncode, "OK" if (a.returncode, b.returncode != 0, t.returncode, c.returncode) == (0, True, 0, 1) else "<<<<", flush=True)
    if a.returncode or not b.returncode or t.returncode:
        print("\n".join(l[:300] for l in (a.stdout if a.returncode else "").splitlines() if "error" in l or "panicked" in l), "-----", t.stdout[-100:] if t.returncode else "")
if __name__ == "__main__":
    flt = [x for x in sys.argv[1:] if x != "-t"]
    for s in defs():
        if flt and not any(x in s["id"] for x in flt):
            continue
        make(s)
        if "-t" in sys.argv:
            test(s)
