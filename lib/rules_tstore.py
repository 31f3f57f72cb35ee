"""Tablet store actor: C60..C64."""
from rlib import *
from rules_coord import once
import rules_rsm as rsm

A = "TabletStoreActor"
REQ = "Message::decode($3.contents)"
OPS = REQ + ".tablet_ops"
E = OPS + "[*]"
OP = E + ".op"
TB = f"self.tables[{E}.table_name].tablets"
KNOWN = f"get(self.tables, {E}.table_name)"
UPD = OP + ".UpdateTablet.0.tablet_metadata"
def act(ctx, me):
    return ctx.api(A, "Actor", me)
def inner(x):
    while x[0] == "agg" and x[2] in ("Some", "Ok") and len(x[3]) == 1:
        x = x[3][0][1]
    return x

class Apply:
    """The pieces of the application of a request."""
    def __init__(self, ctx):
        self.f = f = act(ctx, "on_apply_event")
        self.heads = [h for h in loops(f, OPS)]
        ctx.need(self.heads, "loop over the operations of a request")
        # responses, and the collections of results in them
        self.resp = []
        for p, t in ret_values(f):
            for c in aggfield(t, "commands"):
                for q, v in item_states(f, c):
                    self.resp.append((q, v))
        ctx.need(self.resp, "response command")
        self.out = {}
        for q, v in self.resp:
            for pl in aggfield(v, "payload"):
                for x in alts(pl):
                    x = inner(x)
                    a = x[2][0] if x[0] == "call" and x[1].endswith("encode_to_vec") and x[2] else x
                    d = dict(a[3]) if a[0] == "agg" else {}
                    self.out.setdefault(cv(d.get("status", ("undef",))).split("::")[-1], []).append((q, d.get("tablet_results", ("undef",))))
        ctx.need([k for k in ("Succeeded", "Failed") if k in self.out], "responses with status Succeeded and Failed", 2)
        # items of the results that describe an operation from scratch
        self.items = []
        seen, todo = set(), [c for k in self.out for _, c in self.out[k]]
        self.final = {k: {x for _, c in v for x in alts(c)} for k, v in self.out.items()}
        while todo:
            c = todo.pop()
            for x in alts(c):
                if x in seen:
                    continue
                seen.add(x)
                for p, v in item_states(f, x):
                    for y in alts(v):
                        y = y[1] if y[0] == "upd" and y[1][0] != "agg" else y
                        if y[0] == "agg" and short(y[1]) == "TabletOpResult":
                            self.items.append((p, y))
                        elif y[0] == "pay" and y[1][0] == "next":
                            todo.append(y[1][1])
                        else:
                            self.items.append((p, y))
        ctx.need(self.items, "results of operations")
        self.writes = [e for e in place_events(f, "self.%")]
    def status(self, y):
        return cv(dict(y[3]).get("status", ("undef",))).split("::")[-1] if y[0] == "agg" else "?"

def apply_of(ctx):
    a = getattr(ctx.prog, "_tstore", None)
    if a is None:
        a = ctx.prog._tstore = Apply(ctx)
    return a

# ---------------------------------------------------------------- C60
def atomic(ctx):
    R = "all-or-nothing"
    a = apply_of(ctx)
    f = a.f
    good = [p for p, y in a.items if a.status(y) == "Succeeded"]
    bad = [p for p, y in a.items if a.status(y) != "Succeeded" and p not in good]
    ctx.need(good and bad, "succeeded and failed results")
    commits = ps_(a.writes)
    ctx.need(commits, "application of operations")
    okresp = [q for q, _ in a.out["Succeeded"]]
    noresp = [q for k in a.out if k != "Succeeded" for q, _ in a.out[k]]
    r = live_from(f, bad, ())
    off = [e for e in a.writes if e.p in r]
    ctx.check(not off, R, f.where(off[0].n) if off else f.entry_body.name, "an operation is applied although another operation of the request did not succeed", key=f"{R}:partial")
    ctx.check(not [q for q in okresp if q in r], R, f.entry_body.name, "a request is reported as succeeded although an operation did not succeed", key=f"{R}:reported-success")
    # every item is decided before the first operation is applied
    r = live_from(f, commits, ())
    off = [p for p, _ in a.items if p in r]
    ctx.check(not off, R, showp(f, off[0]) if off else f.entry_body.name, "operations are applied before all were checked", key=f"{R}:order")
    r = live_from(f, None, (), avoid=set(bad))
    ctx.check(not [q for q in noresp if q in r], R, f.entry_body.name, "a request is reported as failed although all operations succeeded", key=f"{R}:reported-failure")
    # what is applied
    table(ctx, R, f, a.writes, [Row("updated tablet", [UPD + ".tablet_id", UPD], kind="grow", target=TB)], "changes of the state")
    cl = [h for h in a.heads if any(p in live_from(f, [t for _, t in loop_edges(f, h, OPS)[0]], (), avoid=set(f.bynode[h.id])) for p in commits)]
    ctx.need(cl, "loop that applies the operations")
    some = [V(OP, "ok"), V(KNOWN, "ok"), V(UPD, "ok")]
    okk, why = foreach_states(f, commits, OPS, some + [V(OP + "?", "UpdateTablet")], heads=cl)
    ctx.check(okk, R, f.where(cl[0]), f"an update of a request that succeeds is not applied: {why}", key=f"{R}:applied")
    for k in ("ListTablet", "CheckTablet"):
        r = iteration(f, OPS, some + [V(OP + "?", k)], cl)
        off = [p for p in commits if p in r]
        ctx.check(not off, R, f.where(cl[0]), f"a {k} operation changes the state", key=f"{R}:changed-by:{k}")
    # the loop that applies is always entered when all succeeded
    r = live_from(f, None, [V(REQ, "ok")], avoid=set(bad) | {p for h in cl for p in f.bynode[h.id]})
    off = [p for p in okresp if p in r]
    ctx.check(not off, R, f.entry_body.name, "a request is reported as succeeded without its operations being applied", key=f"{R}:skipped")
def ps_(evs):
    return [e.p for e in evs]

# ---------------------------------------------------------------- results
def results(ctx):
    """One result per operation, in order, also in the response."""
    R = "result-per-operation"
    a = apply_of(ctx)
    f = a.f
    for k, colls in sorted(a.final.items()):
        for c in sorted(colls, key=cv):
            its = item_states(f, c)
            ctx.need(its, f"results of a response with status {k}")
            vals = set()
            for p, v in its:
                for y in alts(v):
                    y = y[1] if y[0] == "upd" and y[1][0] == "pay" else y
                    vals.add("result" if y[0] == "agg" and short(y[1]) == "TabletOpResult" else cv(y))
            ctx.check(vals <= {"result", "new()[*]", "collect()[*]"} or all(v == "result" or (v.endswith("[*]")) for v in vals), R, f.entry_body.name, f"results of a response are {sorted(vals)}", key=f"{R}:values:{k}")
            okk, why = foreach_states(f, [p for p, _ in its], OPS, [V(REQ, "ok")])
            ctx.check(okk, R, f.entry_body.name, f"status {k}: an operation has no result: {why}", key=f"{R}:missing:{k}")
            ns = {p for p, _ in its}
            hs = {p for h in a.heads for p in f.bynode[h.id]}
            r = f.reach(ns, avoid=hs | {x for h in a.heads for x in ()}, skip_start=True)
            ctx.check(not (ns & r), R, f.entry_body.name, f"status {k}: an operation has two results", key=f"{R}:twice:{k}")
            for pn in pushes(f, c):
                ctx.check(pn.d["cal"].m in ("push", "push_back", "extend", "append"), R, f.where(pn), f"results are not in the order of the operations: {pn.d['cal'].m}", key=f"{R}:order:{k}")
            late = [n for n in f.calls(m=set(SHRINK) | {"sort", "sort_by", "sort_by_key", "reverse", "sort_unstable", "swap", "rotate_left", "rotate_right", "dedup", "truncate", "retain"}) if f.nargs(n) and any(c in alts(f.argt(n, 0, f.env_of(p))) for p in f.bynode[n.id])]
            ctx.check(not late, R, f.where(late[0]) if late else "", "results are removed or reordered", key=f"{R}:reordered:{k}")
    # results keep what was decided when the operations are applied
    for p, v in [(p, v) for cs in a.final.values() for c in cs for p, v in item_states(f, c)]:
        for y in alts(v):
            if y[0] == "upd" and y[1][0] == "pay":
                ctx.check(all(n == "op_result" and m(["%[*].op_result", "rec.op_result"], cv(w)) for n, w in y[2]), R, showp(f, p), f"a result changes when the operation is applied: {cv(y)[:200]}", key=f"{R}:changed")
    # response command
    table(ctx, R, f, [Ev(f, f.nodes[f.pnodes[p][0]], p, "grow", "commands", [v]) for p, v in a.resp], [
        Row("response", ["ActorCommand{correlation_id=$3.correlation_id, header=Message::encode_to_vec(TabletStoreOutMessage{out_msg=OutMsg::ExecuteTabletOpsResponse{0=ExecuteTabletOpsResponse}}), payload=Message::encode_to_vec(TabletsResponse{status=%, tablet_results=%})}"],
            never=[("the request came in at another replica", [T("$2.owned", False)]), ("the event cannot be decoded", [V(REQ, "no")])],
            always=[("the request came in at this replica", [T("$2.owned", True), V(REQ, "ok")])])], "response")
    once(ctx, R, f, [Ev(f, f.nodes[f.pnodes[p][0]], p, "grow", "commands", [v]) for p, v in a.resp], "response")

# ---------------------------------------------------------------- C61
def version_check(ctx):
    R = "version-check"
    a = apply_of(ctx)
    f = a.f
    known = [V(REQ, "ok"), V(OP, "ok"), V(KNOWN, "ok")]
    res = lambda k, rest: [f"OpResult::{k}Tablet{{0={x}}}" for x in rest]
    ck_, up = OP + ".CheckTablet.0", UPD
    def ex(k, t):
        return res(k, [f"default:{k}TabletResult()+{{existing_tablet={t}}}", f"{k}TabletResult{{existing_tablet={t}}}"])
    def empty(k):
        return res(k, [f"default:{k}TabletResult()", f"{k}TabletResult{{existing_tablet=None}}"])
    ct, ut = f"{TB}[{ck_}.tablet_id]", f"{TB}[{up}.tablet_id]"
    isc, isu = known + [V(OP + "?", "CheckTablet")], known + [V(OP + "?", "UpdateTablet")]
    hasc, hasu = isc + [V(f"get({TB}, {ck_}.tablet_id)", "ok")], isu + [V(up, "ok"), V(f"get({TB}, {up}.tablet_id)", "ok")]
    ver = (f"{up}.tablet_version", f"(1 Add {ut}.tablet_version)")
    new = f"({E}.table_name, {up}.tablet_id)"
    first = lambda b: [T(f"insert(%, {new})", b), T(f"contains(%, {new})", not b)]
    no = {"Failed", "Invalid", "Aborted"}
    cases = [("a table that does not exist", [V(REQ, "ok"), V(KNOWN, "no")], no, None),
             ("no operation", [V(REQ, "ok"), V(OP, "no")], no, None),
             ("an unsupported addition", known + [V(OP + "?", "AddTablet")], no, None),
             ("an unsupported removal", known + [V(OP + "?", "RemoveTablet")], no, None),
             ("a check of a tablet that does not exist", isc + [V(f"get({TB}, {ck_}.tablet_id)", "no")], no, empty("Check")),
             ("a check of another version", hasc + [REL(f"{ck_}.tablet_version", "<>", ct + ".tablet_version")], no, ex("Check", ct)),
             ("a check of the current version", hasc + [REL(f"{ck_}.tablet_version", "=", ct + ".tablet_version")], {"Succeeded"}, empty("Check")),
             ("an update without metadata", isu + [V(up, "no")], no, empty("Update")),
             ("an update of a tablet that does not exist", isu + [V(up, "ok"), V(f"get({TB}, {up}.tablet_id)", "no")], no, empty("Update")),
             ("an update to another than the next version", hasu + [REL(ver[0], "<>", ver[1])], no, ex("Update", ut)),
             ("an update to the next version", hasu + [REL(ver[0], "=", ver[1])] + first(True), {"Succeeded"}, ex("Update", ut)),
             ("a second update of a tablet", hasu + first(False), no, ex("Update", ut)),
             ("a list", known + [V(OP + "?", "ListTablet")], {"Succeeded"}, [f"OpResult::ListTablet{{0=ListTabletResult{{key_hash_from={OP}.ListTablet.0.key_hash_from, key_hash_to={OP}.ListTablet.0.key_hash_to, tablets=%}}}}"])]
    pl = [h for h in a.heads if any(p in iteration(f, OPS, (), [h]) for p, _ in a.items)]
    panics = [p for n in f.nodes if n.kind in ("panic", "unreachable") and n.id in f.reached for p in f.bynode[n.id]]
    for what, ass, sts, pats in cases:
        r = iteration(f, OPS, ass, pl)
        its = [(p, y) for p, y in a.items if p in r]
        if not ctx.check(bool(its), R, f.entry_body.name, f"there is no result for {what}", key=f"{R}:{what}:none"):
            continue
        got = {a.status(y) for _, y in its}
        ctx.check(got <= sts, R, showp(f, its[0][0]), f"{what} has status {sorted(got)}", key=f"{R}:{what}:status")
        for p, y in its:
            d = dict(y[3]) if y[0] == "agg" else {}
            ctx.check(cv(d.get("table_name", ("undef",))) == E + ".table_name", R, showp(f, p), f"the result of {what} names table {cv(d.get('table_name', ('undef',)))}", key=f"{R}:{what}:table")
            if pats is not None:
                s = cv(d.get("op_result", ("undef",)))
                ctx.check(m(pats, s), R, showp(f, p), f"the result of {what} is {s[:200]}", key=f"{R}:{what}:result")
        # no way around
        off = [p for h in pl for p in f.bynode[h.id] if p in live_from(f, [t for h in pl for _, t in loop_edges(f, h, OPS)[0]], ass, avoid={p for p, _ in a.items})]
        ctx.check(not off, R, f.where(pl[0]), f"{what} may have no result", key=f"{R}:{what}:skipped")
    for k in ("tested",):
        ctx.check(any(tested(f, t) for t in first(True)), R, f.entry_body.name, "it is not checked whether the tablet was already updated by the same request", key=f"{R}:second-update")
        ctx.check(tested(f, REL(*[ver[0], "=", ver[1]])), R, f.entry_body.name, "the version of an update is not compared with the next version", key=f"{R}:next-version")
    # the tablets seen are those updated by the request
    for n in f.calls(m={"insert"}):
        for p in f.bynode[n.id]:
            args = [cv(f.argt(n, i, f.env_of(p))) for i in range(f.nargs(n))]
            if len(args) == 2 and args[1] == new:
                ctx.check(p not in iteration(f, OPS, [V(OP + "?", "ListTablet", "CheckTablet", "AddTablet", "RemoveTablet")], pl), R, showp(f, p), "a tablet is marked as updated by another operation", key=f"{R}:marked")

# ---------------------------------------------------------------- C62
def list_coverage(ctx):
    R = "list-coverage"
    a = apply_of(ctx)
    f = a.f
    L = OP + ".ListTablet.0"
    FR, TO = L + ".key_hash_from", L + ".key_hash_to"
    colls = set()
    for p, y in a.items:
        for o in alts(dict(y[3]).get("op_result", ("undef",))) if y[0] == "agg" else []:
            o = inner(o)
            if o[0] == "agg" and o[2] == "ListTablet":
                colls |= set(alts(dict(inner(o[3][0][1])[3]).get("tablets", ("undef",))))
    ctx.need(colls, "listed tablets")
    its = [x for c in colls for x in item_states(f, c)]
    ctx.need(its, "tablets added to a list")
    ivs = [x for x in {y for n in f.calls(m=GROW) for p in f.bynode[n.id] for y in alts(f.argt(n, 0, f.env_of(p)))} if x[0] == "call"]
    # searched intervals
    starts = {}
    for p, v in [(p, v) for x in ivs for p, v in item_states(f, x)]:
        if v[0] == "agg" and v[1] == "tuple":
            s = tuple(cv(y) for _, y in v[3])
            if len(s) == 2 and (s[0] in (FR, TO, "0") or s[1] in (FR, TO)):
                starts.setdefault(s, []).append(p)
    want = {(FR, TO): ("<", "the range does not wrap"), (FR, "u32::MAX"): ("=>", "the range wraps"), ("0", TO): ("=>", "the range wraps")}
    for s in starts:
        ctx.check(s in want, R, showp(f, starts[s][0]), f"interval {s} is searched", key=f"{R}:interval:{s[0][-14:]}-{s[1][-14:]}")
    isl = [V(REQ, "ok"), V(OP, "ok"), V(KNOWN, "ok"), V(OP + "?", "ListTablet")]
    pl = [h for h in a.heads if any(p in iteration(f, OPS, (), [h]) for p, _ in a.items)]
    hp = {p for h in pl for p in f.bynode[h.id]}
    begin = [t for h in pl for _, t in loop_edges(f, h, OPS)[0]]
    for s, (rel, text) in want.items():
        if not ctx.check(s in starts, R, f.entry_body.name, f"interval {s} is never searched", key=f"{R}:interval-missing:{s[0][-14:]}-{s[1][-14:]}"):
            continue
        other = {"<": "=>", "=>": "<"}[rel]
        r = live_from(f, begin, isl + [REL(FR, rel, TO)], avoid=set(starts[s]))
        ctx.check(not [p for p in hp if p in r], R, showp(f, starts[s][0]), f"interval {s} is not searched although {text}", key=f"{R}:not-searched:{s[0][-14:]}-{s[1][-14:]}")
        r = live_from(f, begin, isl + [REL(FR, other, TO)], avoid=hp)
        ctx.check(not [p for p in starts[s] if p in r], R, showp(f, starts[s][0]), f"interval {s} is searched unless {text}", key=f"{R}:searched:{s[0][-14:]}-{s[1][-14:]}")
    # tablets of an interval
    RG = f"range({TB}, RangeFrom{{start=%[*].0}})"
    FK = f"first_key_value({TB})"
    by = {RG: [], FK: []}
    for p, v in its:
        s = cv(v)
        k = RG if m(RG + "[*].1", s) else FK if m(FK + ".1", s) else None
        if ctx.check(k is not None, R, showp(f, p), f"the list contains {s[:200]}", key=f"{R}:item"):
            by[k].append(p)
    ctx.need(by[RG] and by[FK], "tablets of the range and the first tablet")
    new = T(f"insert(%, {RG}[*].0)", True)
    okk, why = foreach_states(f, by[RG], RG, [new])
    # leaving the loop early is fine once the end of the range is covered
    okk2, why2 = foreach_states(f, by[RG], RG, [new], base=[REL(f"{RG}[*].0", "<", "%[*].1")])
    ctx.check(okk or okk2, R, showp(f, by[RG][0]), f"a tablet of the range is left out: {why2}", key=f"{R}:left-out")
    r = live_from(f, [t for h in loops(f, RG) for _, t in loop_edges(f, h, RG)[0]], [T(f"insert(%, {RG}[*].0)", False)], avoid={p for h in loops(f, RG) for p in f.bynode[h.id]})
    ctx.check(not [p for p in by[RG] if p in r], R, showp(f, by[RG][0]), "a tablet is listed twice", key=f"{R}:twice")
    # the search goes around when the end was not covered
    exits = [t for h in loops(f, RG) for _, t in loop_edges(f, h, RG)[1]]
    rr = live_from(f, exits, isl + [REL(f"{RG}[*].0", "<", "%[*].1"), V(FK, "ok"), T(f"insert(%, {FK}.0)", True)], avoid=set(by[FK]))
    seen = [p for p, y in a.items if p in rr]
    ctx.check(not seen, R, showp(f, by[FK][0]), "the first tablet of the ring is left out although no tablet covers the end of the range", key=f"{R}:wrap")

# ---------------------------------------------------------------- C63
def snapshot(ctx):
    R = "snapshot"
    f = act(ctx, "on_save_snapshot")
    rsm.unchanged(ctx, R, f, "saving a snapshot")
    rsm.saved(ctx, R, f, "TabletStoreSnapshot", "table_snapshots", "self.tables", "TableSnapshot{table_name=self.tables[*]%, table_tablets=%}")
    parts = {}
    for n in f.nodes:
        if n.kind == "assign" and n.id in f.reached and n.d["rv"][0] == "agg" and short(n.d["rv"][2]) == "TableSnapshot":
            for p in f.bynode[n.id]:
                for v in alts(f.wval(n, f.env_of(p))):
                    parts[(p, dict(v[3])["table_tablets"], dict(v[3])["table_name"])] = n
    ctx.need(parts, "snapshot of a table")
    for (p, c, nm), n in parts.items():
        ctx.check(m(["self.tables[*].1.config.table_name", "self.tables[*].0"], cv(nm)), R, showp(f, p), f"a table is saved as {cv(nm)}", key=f"{R}:saved-name")
        its = item_states(f, c)
        if not its and m(["collect(values(self.tables[*].1.tablets))", "collect(into_values(self.tables[*].1.tablets))"], cv(c)):
            continue
        if ctx.check(bool(its), R, showp(f, p), f"the tablets saved are {cv(c)[:200]}", key=f"{R}:saved-tablets"):
            for q, v in its:
                ctx.check(cv(v) == "self.tables[*].1.tablets[*].1", R, showp(f, q), f"saved tablet {cv(v)[:200]}", key=f"{R}:saved-tablet")
            okk, why = foreach_states(f, [q for q, _ in its], "self.tables[*].1.tablets")
            ctx.check(okk, R, showp(f, p), f"not every tablet is saved: {why}", key=f"{R}:saved-all-tablets")
            sh = [x for y in alts(c) for x in shrinks_before(f, y, n)]
            ctx.check(not sh, R, f.where(sh[0]) if sh else "", "saved tablets are dropped", key=f"{R}:saved-dropped")
    f = act(ctx, "on_load_snapshot")
    S = "Message::decode($2)"
    TS = S + ".table_snapshots"
    TG = f"self.tables[{TS}[*].table_name].tablets"
    evs = [e for e in place_events(f, "self.%") if not e.target.startswith("self.context")]
    clear = [e for e in evs if e.target == TG and (e.kind == "shrink" and not e.args or e.kind == "write")]
    def fresh(e):
        return cv(e.args[-1]) == "new()" if e.kind == "write" else True
    table(ctx, R, f, [e for e in evs if e not in clear], [
        Row("load", [TS + "[*].table_tablets[*].tablet_id", TS + "[*].table_tablets[*]"], kind="grow", target=TG,
            never=[("the snapshot cannot be decoded", [V(S, "no")]), ("the table does not exist", [V(f"get(self.tables, {TS}[*].table_name)", "no")])],
            foreach=[("for each tablet", TS + "[*].table_tablets", [], [V(S, "ok")])])], "state")
    heads = loops(f, TS)
    ctx.need(heads, "loop over the tables of a snapshot")
    okk, why = foreach_states(f, [e.p for e in clear], TS, [V(f"get(self.tables, {TS}[*].table_name)", "ok")], base=[V(S, "ok"), V(f"get(self.tables, {TS}[*].table_name)", "ok")])
    ctx.check(okk, R, f.entry_body.name, f"tablets that are not in the snapshot stay: {why}", key=f"{R}:stale-tablets")
    ins = [e.p for e in evs if e.kind == "grow"]
    for e in clear:
        ctx.check(fresh(e), R, f.where(e.n), f"tablets are replaced by {e.text()[:200]}", key=f"{R}:replaced")
        r = f.reach(ins, avoid={p for h in heads for p in f.bynode[h.id]}, skip_start=True)
        ctx.check(e.p not in r, R, f.where(e.n), "loaded tablets are dropped", key=f"{R}:dropped")
    # the tablets of each table
    inner_ = loops(f, TS + "[*].table_tablets")
    st = [t for h in heads for _, t in loop_edges(f, h, TS)[0]]
    r = live_from(f, st, [V(f"get(self.tables, {TS}[*].table_name)", "ok")], avoid={p for h in inner_ for p in f.bynode[h.id]})
    off = [p for h in heads for p in f.bynode[h.id] if p in r]
    ctx.check(not off, R, showp(f, off[0]) if off else "", "the tablets of a table are not loaded", key=f"{R}:skipped")
    rsm.scenario(ctx, R, f, "undecodable snapshot", [V(S, "no")], kind="err", changes=False)
    r = live_from(f, st, [V(f"get(self.tables, {TS}[*].table_name)", "no")])
    off = [o for o in rsm.outs(f) if o[0] in r and o[1] != "err"]
    ctx.check(not off, R, showp(f, off[0][0]) if off else "", "a snapshot with an unknown table is loaded without an error", key=f"{R}:unknown-table")

def init(ctx):
    R = "init"
    f = act(ctx, "on_init")
    C = "Message::decode(ActorContext::config(self.context))"
    TC = ["self.config.table_configs", C + ".table_configs"]
    tc = lambda x: [y + x for y in TC]
    evs = [e for e in place_events(f, "self.tables%", ("grow", "write", "shrink")) if not (e.kind == "write" and cv(e.args[-1]) == "new()" or e.kind == "shrink" and not e.args)]
    table(ctx, R, f, evs, [Row("table", [tc("[*].table_name"), [f"TableMetadata{{config={x}[*], tablets=%}}" for x in TC]], kind="grow", target="self.tables", never=[("the configuration cannot be decoded", [V(C, "no")])],
        foreach=[("for each configured table", TC, [], [V(C, "ok")])])], "tables")
    for e in evs:
        for v in alts(e.args[-1]):
            c = dict(v[3]).get("tablets") if v[0] == "agg" else None
            its = item_states(f, c) if c else []
            G = [f"TabletConfigurator::generate(self.configurator, {x}[*].initial_tablet_count)" for x in TC]
            if ctx.check(bool(its), R, f.where(e.n), "a table is created without tablets", key=f"{R}:tablets"):
                for q, w in its:
                    s = cv(w)
                    ctx.check(any(m([f"({g}[*], TabletMetadata{{tablet_id={g}[*], tablet_version=default:TabletMetadata().tablet_version%", f"({g}[*], TabletMetadata{{tablet_id={g}[*], tablet_version=0%", f"({g}[*], default:TabletMetadata()+{{tablet_id={g}[*]}})"], s) for g in G), R, showp(f, q), f"initial tablet {s[:300]}", key=f"{R}:tablet")
                okk, why = foreach_states(f, [q for q, _ in its], G, (), base=[V(C, "ok")])
                ctx.check(okk, R, f.where(e.n), f"not every generated tablet is created: {why}", key=f"{R}:all-tablets")
    rsm.scenario(ctx, R, f, "undecodable configuration", [V(C, "no")], kind="err")

# ---------------------------------------------------------------- C64
def gate(ctx):
    R = "command-gate"
    f = act(ctx, "on_process_command")
    L = "ActorContext::leader(self.context)"
    IN = "Message::decode($2.header)"
    PL = "Message::decode($2.payload)"
    err = lambda s: f"ActorCommand{{correlation_id=$2.correlation_id, header=Message::encode_to_vec(TabletStoreOutMessage{{out_msg=OutMsg::ExecuteTabletOpsError{{0=ExecuteTabletOpsError{{status=ExecuteTabletOpsStatus::{s}, diagnostic_message=%}}}}}}), payload=Bytes::new()}}"
    some = [V("$2", "ok")]
    lead = some + [T(L, True)]
    scn = rsm.scenario
    scn(ctx, R, f, "no command", [V("$2", "no")])
    scn(ctx, R, f, "not the leader", some + [T(L, False), V(IN, "ok"), V(IN + ".in_msg", "ok"), V(PL, "ok")], cmds=[err("Rejected")])
    scn(ctx, R, f, "undecodable header", lead + [V(IN, "no")], cmds=[err("InvalidOperation")])
    scn(ctx, R, f, "command without message", lead + [V(IN, "ok"), V(IN + ".in_msg", "no")], cmds=[err("InvalidOperation")])
    scn(ctx, R, f, "undecodable payload", lead + [V(IN, "ok"), V(IN + ".in_msg", "ok"), V(PL, "no")], cmds=[err("InvalidOperation")])
    scn(ctx, R, f, "request", lead + [V(IN, "ok"), V(IN + ".in_msg", "ok"), V(PL, "ok")], event=["ActorEvent{correlation_id=$2.correlation_id, contents=$2.payload}", f"ActorEvent{{correlation_id=$2.correlation_id, contents=Message::encode_to_vec({PL})}}"])
    ctx.check(tested(f, T(L)), R, f.entry_body.name, "leadership is not checked", key=f"{R}:leader")
    ctx.check(tested(f, V(PL, "ok")), R, f.entry_body.name, "the payload is not decoded before it is replicated", key=f"{R}:payload")
    rsm.unchanged(ctx, R, f, "processing a command")

# ---------------------------------------------------------------- C65
def determinism(ctx):
    R = "determinism"
    rsm.replica_independent(ctx, R, act(ctx, "on_apply_event"), "applying an event")
    rsm.replica_independent(ctx, R, act(ctx, "on_load_snapshot"), "loading a snapshot", owned=None)
    rsm.replica_independent(ctx, R, act(ctx, "on_init"), "initialisation", owned=None)
    impls = [b for b in ctx.prog.find(trait="TabletConfigurator", method="generate")]
    ctx.need(impls, "generators of tablet ids")
    for b in impls:
        g = ctx.flow(b)
        src = {n.d["cal"].name for n in g.nodes if n.kind == "call" and n.id in g.reached and n.d["cal"] is not None and n.d["cal"].m in ("next_u32", "next_u64", "fill_bytes", "gen", "gen_range", "random", "try_fill_bytes")}
        ctx.check(not src, R, f"{b.file} in {b.name}", f"tablet ids differ between replicas: they are drawn from {sorted(src)}", key=f"{R}:tablet-ids:{b.name}")
