"""Self-test of the rules: applies textual changes to a copy of the repository,
type-checks the affected crate and reports which properties object.

  mutate.py <cases.py> [case substring]

A case is (name, file, [(old, new), ...], expected): expected is a set of
properties of which at least one must object, or None for a change that keeps
the behaviour (all must stay quiet)."""
import sys, os, re, shutil, tempfile, subprocess, json, importlib.util, io, contextlib, time
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
sys.setrecursionlimit(10000)
import world
REPO = os.environ.get("MUT_REPO", "/repo")
CRATE_OF = {"apps/tablet_cache/service": "tcp_tablet_cache_service", "apps/tablet_store/service": "tcp_tablet_store_service", "apps/atomic_counter/service": "tcp_atomic_counter_service",
            "apps/willow/decryptor/actor": "willow_decryptor_service", "runtime": "tcp_runtime", "integration": "tcp_integration", "apps/tablet_cache/app": "tablet_cache_app",
            "apps/atomic_counter/app": "atomic_counter_app", "apps/tablet_store/app": "tablet_store_app", "apps/atomic_counter/container": "atomic_counter_container", "apps/willow/decryptor/container": "willow_container"}

def subst(s, old, new):
    """Replaces the first occurrence; comment lines in the source may be left
    out of the pattern."""
    if old in s:
        return s.replace(old, new, 1)
    lines = old.split("\n")
    p = re.compile(r"\n(?:[ \t]*//[^\n]*\n)*".join(re.escape(x) for x in lines))
    return p.sub(lambda m: new, s, count=1) if p.search(s) else None

def run_case(args):
    name, file, subs, base = args
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for top in ("apps", "runtime", "proto", "integration", "third_party"):
            shutil.copytree(os.path.join(REPO, top), os.path.join(d, top), ignore=shutil.ignore_patterns("target", ".git"))
        if isinstance(subs, dict):           # whole files
            for f, text in subs.items():
                open(os.path.join(d, f), "w").write(text)
            subs = []
        p = os.path.join(d, file)
        s = open(p).read()
        for old, new in subs:
            r = subst(s, old, new)
            if r is None:
                return name, "NOT FOUND: " + old[:60], {}
            s = r
        open(p, "w").write(s)
        work = os.path.join(d, "facts")
        os.makedirs(work)
        os.environ["VERIF_REPO"] = d
        world.REPO = d
        crate = next(c for pre, c in CRATE_OF.items() if file.startswith(pre))
        for f in os.listdir(base):
            src = os.path.join(base, f)
            if os.path.isfile(src):
                os.symlink(src, os.path.join(work, f))
            else:
                os.symlink(src, os.path.join(work, f))
        ext = world.externs()
        e = world.driver_env(work)
        root = [x for x in world.CRATES if x[0] == crate][0][1]
        same = [x for x in world.CRATES if x[1] == root]
        for c in same:
            out = os.path.join(work, c[0] + ".json")
            if os.path.islink(out):
                os.unlink(out)
            rm = os.path.join(work, "lib" + c[0] + ".rmeta")
            if os.path.islink(rm):
                os.unlink(rm)
            e["FACTS_OUT"] = out
            r = world.sh([world.DRIVER] + world.crate_args(work, *c, ext), env=e)
            if r.returncode:
                return name, "DOES NOT COMPILE: " + "\n".join(l for l in r.stderr.splitlines() if l.startswith("error"))[:300], {}
        import mir, core, props
        res = {}
        progs = {}
        for pid, spec in props.PROPS.items():
            if crate not in {x[0] for x in world.closure_of(spec["crates"])}:
                continue
            key = tuple(sorted(x[0] for x in world.closure_of(spec["crates"])))
            if key not in progs:
                prog = mir.Prog(d)
                for n in key:
                    prog.repo = d if n in [x[0] for x in same] else REPO
                    prog.load(os.path.join(work, n + ".json"))
                prog.link()
                progs[key] = (prog, {})
            ctx = core.Ctx(pid, progs[key][0])
            ctx.flows = progs[key][1]
            for rule in spec["rules"]:
                try:
                    rule(ctx)
                except core.Anchor as ex:
                    ctx.bad("anchor", rule.__name__, str(ex), key="anchor:" + rule.__name__)
                except RuntimeError as ex:
                    ctx.bad("analysis", rule.__name__, str(ex), key="analysis:" + rule.__name__)
            known = {k["key"] for k in core.known_findings() if k["property"] == pid and k.get("status") != "fixed"}
            v = [t for k, t in ctx.viols if k not in known]
            if v:
                res[pid] = v
        return name, "", res
    except Exception as ex:
        import traceback
        return name, "ERROR " + traceback.format_exc()[-600:], {}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def base_facts():
    base = os.environ.get("BASE_FACTS")
    if base:
        return base, None
    base = tempfile.mkdtemp(prefix="mutbase-", dir="/tmp")
    world.collect([c[0] for c in world.CRATES], base)
    return base, base

def main():
    cases = []
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            sp = importlib.util.spec_from_file_location("cases", a)
            mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
            cases += mod.CASES
    filt = [a for a in sys.argv[1:] if not a.endswith(".py") and not a.startswith("-")]
    if filt:
        cases = [c for c in cases if any(f in c[0] for f in filt)]
    base, tmp = base_facts()
    bad = 0
    exp = {c[0]: c[3] for c in cases}
    with ProcessPoolExecutor(7) as ex:
        for name, err, res in ex.map(run_case, [(c[0], c[1], c[2], base) for c in cases]):
            e = exp[name]
            if err:
                st = "??? " + err; bad += 1
            elif e is None:
                st = "quiet" if not res else "FALSE ALARM"
                bad += bool(res)
            else:
                st = "caught" if set(res) & set(e) else ("caught elsewhere" if res else "MISSED")
                bad += not (set(res) & set(e))
            print(f"{st:16} {name}  {sorted(res)}")
            if (e is None and res) or "-v" in sys.argv:
                for k, vs in res.items():
                    for v in vs[:3]:
                        print("      ", k, v[:500])
    if tmp:
        shutil.rmtree(tmp, ignore_errors=True)
    print("problems:", bad)
    sys.exit(1 if bad else 0)
if __name__ == "__main__":
    main()
