"""Debug aid: prints the events of an entry point (dump.py <facts dir> <name substring> [file])."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mir, flow, glob
p = mir.Prog(os.environ.get("VERIF_REPO", "/repo"))
for f in glob.glob(sys.argv[1] + "/*.json"):
    p.load(f)
p.link()
for b in p.bodies.values():
    if sys.argv[2] in b.name and (len(sys.argv) < 4 or sys.argv[3] in b.file) and b.kind != "Closure":
        f = flow.Flow(p, b)
        print("==", b.name, b.file, b.line, len(f.nodes), len(f.pnodes))
        for n in f.nodes:
            if n.id not in f.reached:
                continue
            ind = "  " * len(n.inst.stack)
            log = any(m in ("log",) for m in (n.d or {}).get("macs", [])) if isinstance(n.d, dict) else False
            if log:
                continue
            if n.kind == "call":
                print(f"{n.id:5} {ind}L{n.line} CALL {flow.show(f.res(n))}   [{n.d['cal'].name if n.d['cal'] else '?'}] ({', '.join(flow.show(f.argt(n,i)) for i in range(f.nargs(n)))})")
            elif n.kind in ("switch", "test", "next"):
                for s, l in n.succ:
                    fc = f.fact_of(n, l)
                    print(f"{n.id:5} {ind}L{n.line} {n.kind} -> {s}: {[(k[0],) + tuple(flow.show(x) for x in k[1:]) + (v,) for k, v in fc] if isinstance(fc, list) else fc}")
            elif n.kind == "enter":
                print(f"{n.id:5} {ind}L{n.line} ENTER {[p.bodies[x].name for x in n.d['bodies']]}")
            elif n.kind == "assign" and len(n.d["place"]) > 1:
                print(f"{n.id:5} {ind}L{n.line} WRITE {flow.show(f.wpath(n))} := {flow.show(f.wval(n))}")
            elif n.kind == "assign" and n.d["rv"][0] == "agg" and n.d["rv"][1] == "adt" and n.d["rv"][2].split("::")[0] not in ("std", "core", "slog"):
                print(f"{n.id:5} {ind}L{n.line} AGG {flow.show(f.aggt(n))}")
            elif n.kind in ("panic", "assert"):
                print(f"{n.id:5} {ind}L{n.line} {n.kind} {n.d['k']}")
        print("   RETURNS", flow.show(f.local_term(f.root, 0)))
