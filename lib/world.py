"""Type-checks the whole of the repository (runtime, apps, integration harness)
against the prebuilt dependency world and collects analysis facts.

Layout:
  /verif/world   third-party dependency workspace + signature-level stand-ins
  /verif/driver  rustc_private driver that dumps MIR facts as JSON
  /verif/build   (git-ignored) build products made by setup.sh
"""
import json, os, subprocess, sys, shutil, tempfile, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
DEPS = os.path.join(BUILD, "deps")
EXTERNS = os.path.join(BUILD, "externs.json")
DRIVER = os.path.join(BUILD, "driver-target", "release", "facts-driver")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"

def env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": TARGET,
        "PROTOC": "/usr/bin/protoc",
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    })
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e

def sh(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", env()), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, **kw)

# name, source root relative to the repository, features, extern crates (besides
# the third-party ones), edition, crate type, generated code
CRATES = [
    ("tcp_proto", "proto/src/lib.rs", ["std", "tonic"], [], "2021", "lib"),
    ("tcp_runtime", "runtime/src/lib.rs", ["std", "tonic"], ["tcp_proto"], "2024", "lib"),
    # what runs inside the enclave: no standard library
    ("tcp_runtime_enclave", "runtime/src/lib.rs", [], ["tcp_proto"], "2024", "lib"),
    ("tcp_atomic_counter_service", "apps/atomic_counter/service/src/lib.rs", ["std"], ["tcp_proto", "tcp_runtime"], "2021", "lib"),
    ("tcp_tablet_store_service", "apps/tablet_store/service/src/lib.rs", ["std"], ["tcp_proto", "tcp_runtime"], "2021", "lib"),
    ("tcp_tablet_cache_service", "apps/tablet_cache/service/src/lib.rs", ["std"], ["tcp_proto", "tcp_runtime", "tcp_tablet_store_service"], "2021", "lib"),
    ("willow_decryptor_service", "apps/willow/decryptor/actor/src/lib.rs", ["std"], ["tcp_proto", "tcp_runtime"], "2021", "lib"),
    ("tcp_integration", "integration/src/lib.rs", ["std"], ["tcp_proto", "tcp_runtime"], "2021", "lib"),
    ("atomic_counter_container", "apps/atomic_counter/container/src/main.rs", [], ["tcp_proto", "tcp_runtime", "tcp_atomic_counter_service"], "2021", "bin"),
    ("willow_container", "apps/willow/decryptor/container/src/main.rs", [], ["tcp_proto", "tcp_runtime", "willow_decryptor_service"], "2021", "bin"),
    ("atomic_counter_app", "apps/atomic_counter/app/src/main.rs", [], ["tcp_proto", "tcp_runtime", "tcp_atomic_counter_service"], "2021", "bin"),
    ("tablet_store_app", "apps/tablet_store/app/src/main.rs", [], ["tcp_proto", "tcp_runtime", "tcp_tablet_store_service"], "2021", "bin"),
    ("tablet_cache_app", "apps/tablet_cache/app/src/main.rs", [], ["tcp_proto", "tcp_runtime", "tcp_tablet_cache_service"], "2021", "bin"),
]

def build_deps():
    world = os.path.join(VERIF, "world")
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["cargo", "build", "--offline", "--locked", "-p", "protogen"], cwd=world)
    if r.returncode:
        raise SystemExit("protogen build failed: " + r.stderr[-3000:])
    r = sh(["cargo", "check", "--offline", "--locked", "-p", "world_deps", "--message-format=json"], cwd=world)
    if r.returncode:
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
                if m.get("reason") == "compiler-message":
                    sys.stderr.write(m["message"].get("rendered", ""))
            except ValueError:
                pass
        raise SystemExit("dependency build failed: " + r.stderr[-3000:])
    md = json.loads(sh(["cargo", "metadata", "--offline", "--locked", "--format-version=1"], cwd=world).stdout)
    root = [p["id"] for p in md["packages"] if p["name"] == "world_deps"][0]
    node = [n for n in md["resolve"]["nodes"] if n["id"] == root][0]
    want = {d["pkg"]: d["name"] for d in node["deps"]}
    if os.path.isdir(DEPS):
        shutil.rmtree(DEPS)
    os.makedirs(DEPS)
    ext = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith((".rmeta", ".so")):
                g = os.path.join(DEPS, os.path.basename(f))
                shutil.copy2(f, g)
                if m["package_id"] in want and ("lib" in m["target"]["kind"] or "proc-macro" in m["target"]["kind"]):
                    ext[want[m["package_id"]]] = g
    missing = set(want.values()) - set(ext)
    if missing:
        raise SystemExit(f"no artifact for {sorted(missing)}")
    json.dump(ext, open(EXTERNS, "w"), indent=1)
    return ext

def externs():
    try:
        ext = json.load(open(EXTERNS))
        if all(os.path.exists(p) for p in ext.values()):
            return ext
    except (OSError, ValueError):
        pass
    return build_deps()

def protogen(out):
    g = os.path.join(TARGET, "debug", "protogen")
    r = sh([g, REPO, os.path.join(VERIF, "world", "protogen"), out])
    if r.returncode:
        raise RuntimeError("protogen: " + r.stderr[-2000:])

def crate_args(work, name, src, feats, deps, edition, kind, ext):
    a = ["--crate-name", name, "--edition", edition, os.path.join(REPO, src),
         "--crate-type", "lib", "--emit", "metadata",
         "-C", "debug-assertions=on", "-C", "overflow-checks=on",
         "--cap-lints", "allow",
         "-L", "dependency=" + DEPS, "-L", "dependency=" + work,
         "--out-dir", work]
    for f in feats:
        a += ["--cfg", f'feature="{f}"']
    for n, p in ext.items():
        a += ["--extern", f"{n}={p}"]
    for d in deps:
        a += ["--extern", f"{d}={os.path.join(work, 'lib' + d + '.rmeta')}"]
    return a

def driver_env(work):
    e = env()
    sysroot = sh(["rustc", "--print", "sysroot"]).stdout.strip()
    e["OUT_DIR"] = work
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    e["FACTS_SKIP"] = work
    return e

def build_driver():
    r = sh(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(VERIF, "driver"),
           env=dict(env(), CARGO_TARGET_DIR=os.path.join(BUILD, "driver-target")))
    if r.returncode:
        raise SystemExit("driver build failed: " + r.stderr[-3000:])

def closure_of(names):
    by = {c[0]: c for c in CRATES}
    need, st = set(), list(names)
    while st:
        n = st.pop()
        if n in need:
            continue
        need.add(n)
        st += by[n][3]
    return [c for c in CRATES if c[0] in need]

def collect(names, work):
    """Type-checks the crates `names` and what they depend on; returns
    ({crate: facts file}, {crate: compiler errors})."""
    ext = externs()
    if not os.path.exists(DRIVER):
        build_driver()
    if not os.path.exists(os.path.join(TARGET, "debug", "protogen")):
        build_deps()
        ext = externs()
    protogen(work)
    base = driver_env(work)
    want = closure_of(names)
    done, facts, errors, running = set(), {}, {}, {}
    pending = list(want)
    while pending or running:
        for c in list(pending):
            if any(d in errors for d in c[3]):
                errors[c[0]] = "dependency does not type-check"
                pending.remove(c)
            elif all(d in done for d in c[3]):
                e = dict(base)
                out = os.path.join(work, c[0] + ".json")
                e["FACTS_OUT"] = out
                errf = open(os.path.join(work, c[0] + ".err"), "w")
                p = subprocess.Popen([DRIVER] + crate_args(work, *c, ext), env=e, stdout=subprocess.DEVNULL, stderr=errf)
                running[c[0]] = (p, out, errf)
                pending.remove(c)
        for n, (p, out, errf) in list(running.items()):
            if p.poll() is None:
                continue
            errf.close()
            del running[n]
            if os.path.exists(out):
                facts[n] = out
            if p.returncode:
                errors[n] = open(errf.name).read()[-4000:]
            else:
                done.add(n)
        time.sleep(0.01)
    return facts, errors
