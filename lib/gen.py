"""Writes properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(p):
    assert len(p["title"]) <= 80, p["id"]
    return json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
allp = sorted(list(props.PROPS.values()) + props.NOT_APPLICABLE, key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in allp:
        f.write(line(p) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 lib/run.py {p['id']}", "thorough_cmd": f"python3 lib/run.py {p['id']}", "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]}
                  for p in sorted(props.PROPS.values(), key=lambda p: p["id"])],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NOT_APPLICABLE],
       "notes": "Static analysis of the type-checked MIR of the current /repo tree; see DESIGN.md. No hooks in /repo."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(allp), "properties,", len(man["checks"]), "claimed")
# DESIGN.md
import glob
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
fnd = "\n".join(("* " + (k["what"] if k.get("status") == "fixed" else "known finding: property=" + k["property"] + " " + k["what"])) for k in kf)
pr = []
for p in allp:
    pr.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n" + (f"*Not applicable*: {p['reason']}" if "reason" in p else f"*Decided by* {p['technique']}: {p['explain']} Rules: " + ", ".join(f"`{r.__module__}.{r.__name__}`" for r in p["rules"]) + ". Covers all paths, no bound; a few seconds. Tests cannot reach it: " + p["why"]) + "\n")
sd = []
res = {}
try:
    res = json.load(open(V + "/selftest/seed_results.json"))
except OSError:
    pass
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    sd.append(f"* `{i}` ({d['property']}): {d['what_it_breaks']} Caught by {', '.join(res.get(i, ['?'])) or 'nothing'}.")
t = open(V + "/DESIGN.in.md").read().replace("@@FINDINGS@@", fnd).replace("@@PROPS@@", "\n".join(pr)).replace("@@SEEDS@@", "\n".join(sd))
open(V + "/DESIGN.md", "w").write(t)
