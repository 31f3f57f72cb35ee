"""Runs the rules of one property over the current tree and reports."""
import json, os, sys, time, tempfile, shutil, traceback
import world, mir, flow
from flow import Flow, strip, show, subterms, alts
from mir import short, strip_wrappers

VERIF = world.VERIF

class Anchor(Exception):
    pass

class Ctx:
    def __init__(self, prop, prog):
        self.prop, self.prog = prop, prog
        self.viols = []       # (key, text)
        self.obl = []         # (rule, instance)  discharged
        self.counts = {}
        self.flows = {}
        self.funcs = set()
        self.states = 0
        self.samples = []
        self.only = None      # restricts anchors to one crate
    # -- access
    def body(self, selfty=None, trait=None, method=None, name=None, file=None):
        bs = self.prog.find(selfty=selfty, trait=trait, method=method, name=name, file=file)
        bs = [b for b in bs if not b.derived and (self.only is None or b.crate == self.only)]
        if not bs:
            raise Anchor(f"anchor not found: {selfty or ''} {trait or ''} {method or name}")
        return bs[0]
    def flow(self, body, **kw):
        key = (body.id, repr(sorted((k, sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in kw.items())))
        f = self.flows.get(key)
        if f is None:
            import rlib
            f = self.flows[key] = rlib.prune(Flow(self.prog, body, **kw))
            for i in f.inlined:
                self.funcs.add(i)
            self.states += len(f.pnodes)
        return f
    def api(self, selfty, trait, method, **kw):
        return self.flow(self.body(selfty=selfty, trait=trait, method=method), **kw)
    # -- results
    def ok(self, rule, inst):
        self.obl.append((rule, inst, True))
    def bad(self, rule, where, msg, key=None, path=None):
        """where: text location; key: stable identification (no lines)."""
        self.obl.append((rule, where, False))
        txt = f"[{rule}] {where}: {msg}"
        if path:
            txt += "\n    path: " + " -> ".join(path[:60])
        k = key or rule
        self.viols.append((k, txt))
    def check(self, cond, rule, where, msg, key=None, path=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg, key, path)
        return bool(cond)
    def need(self, xs, what, n=1):
        """Fail closed when an anchor has fewer than n instances."""
        if len(xs) < n:
            raise Anchor(f"expected at least {n} of: {what}; found {len(xs)}")
        return xs
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.jsonl")):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    except OSError:
        pass
    return out

def run(prop, spec):
    """spec: {crates, rules: [function], level, explain, technique}"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="vfacts-")
    ctx = None
    try:
        reuse = os.environ.get("VERIF_FACTS")
        if reuse:
            facts = {c: os.path.join(reuse, c + ".json") for c, *_ in world.closure_of(spec["crates"])}
            errors = {}
        else:
            facts, errors = world.collect(spec["crates"], work)
        prog = mir.Prog(world.REPO)
        for n, f in facts.items():
            prog.load(f)
        prog.link()
        ctx = Ctx(prop, prog)
        for n, e in errors.items():
            if n in spec["crates"] or e != "dependency does not type-check":
                ctx.bad("type-check", n, "the crate does not type-check, nothing can be decided about it: " + e[:1500], key="type-check")
        if not errors:
            for rule in spec["rules"]:
                try:
                    rule(ctx)
                except Anchor as e:
                    ctx.bad(rule.__name__, "anchor", str(e), key="anchor:" + rule.__name__)
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    ctx.bad(rule.__name__, "analysis", f"the code has a shape the analysis cannot follow ({type(e).__name__}: {e}; {os.path.basename(tb.filename)}:{tb.lineno})", key="analysis:" + rule.__name__)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = {k["key"]: k for k in known_findings() if k["property"] == prop and k.get("status") != "fixed"}
    new, seen = [], {}
    for k, txt in ctx.viols:
        if k in known:
            seen.setdefault(k, txt)
        else:
            new.append((k, txt))
    for k, txt in seen.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    # stdout: report
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join("evidence", f"{prop}.report.txt")
    disch = sum(1 for o in ctx.obl if o[2])
    rules = {}
    for r, inst, okk in ctx.obl:
        d = rules.setdefault(r, [0, 0]); d[0] += 1; d[1] += okk
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
        "coverage": {
            "explanation": spec.get("explain", ""),
            "obligations": len(ctx.obl), "discharged": disch,
            "rules": {r: {"instances": a, "discharged": b} for r, (a, b) in rules.items()},
            "functions_analysed": sorted({f"{ctx.prog.bodies[i].file}: {ctx.prog.bodies[i].name}" for i in ctx.funcs if i in ctx.prog.bodies}),
            "graph_states": ctx.states,
            "counts": ctx.counts,
            "crates_type_checked": sorted(ctx.prog.crates),
            "bodies_in_program": len(ctx.prog.bodies),
            "samples": [f"{r} @ {i}" for r, i, _ in ctx.obl[:12]],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not ctx.obl:
        new.append(("empty", "no obligation was generated: the rules match nothing in this tree"))
    if new:
        with open(os.path.join(VERIF, rep), "w") as f:
            for k, txt in new:
                f.write(f"key={k}\n{txt}\n\n")
        for k, txt in new[:20]:
            print("  " + txt)
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    print(f"OK property={prop}: {disch} obligations discharged over {len(ctx.funcs)} functions, {ctx.states} states ({ev['wall_s']} s)")
    return 0
