"""Renames, one at a time, every identifier of a crate that is a field, variant,
type or function there; what compiles must leave every check quiet.

  rename.py <crate directory> [identifier ...]"""
import sys, os, re, json, glob
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import names

def run(a):
    return mutate.run_case(a)

def main():
    top = sys.argv[1]
    crate = next(c for pre, c in mutate.CRATE_OF.items() if top.startswith(pre))
    base = names.BASE()[crate]
    files = {os.path.relpath(f, mutate.REPO): open(f).read() for f in glob.glob(os.path.join(mutate.REPO, top, "src", "**", "*.rs"), recursive=True)}
    ids = set(sys.argv[2:])
    if not ids:
        for k, (enum, vs) in base["adts"].items():
            if not names.re.match(r"^(tcp_|willow_)\w+::", k):
                ids |= {names.last(k)} | {v[0] for v in vs if enum} | {f for v in vs for f in v[1]}
        ids |= {f[1] for f in base["fns"]}
        text = "\n".join(files.values())
        ids = {i for i in ids if re.match(r"^[A-Za-z_]\w+$", i) and re.search(r"\b" + i + r"\b", text)}
    bf, tmp = mutate.base_facts()
    jobs = []
    for i in sorted(ids):
        new = i + "Zz" if i[0].isupper() else "zz_" + i
        ch = {f: re.sub(r"(?<!\")\b" + i + r"\b(?!\")", new, s) for f, s in files.items()}
        ch = {f: s for f, s in ch.items() if s != files[f]}
        if ch:
            jobs.append((i, next(iter(ch)), ch, bf))
    tot = {"quiet": 0, "alarm": 0, "nocompile": 0, "error": 0}
    with ProcessPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for name, err, res in ex.map(run, jobs):
            if err.startswith("DOES NOT"):
                tot["nocompile"] += 1
                if "-n" in os.environ.get("SHOW", ""):
                    print("NOCOMPILE", name, err[:100])
            elif err:
                tot["error"] += 1
                print("ERROR", name, err[:600], flush=True)
            elif res:
                tot["alarm"] += 1
                print("ALARM", name, {k: v[0][:200] for k, v in list(res.items())[:3]}, len(res), flush=True)
            else:
                tot["quiet"] += 1
    print(top, tot)
    if tmp:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    main()
