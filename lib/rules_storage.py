"""Raft log storage."""
from rlib import *
from rules_rsm import capture_reads

PANIC = "never returns"
def outcomes(ctx, R, f, name, assume, want):
    """Under the assumptions the call returns one of the given values, or never returns."""
    rr = live_from(f, None, assume)
    got = {}
    for p, t in ret_values(f):
        if p in rr:
            for x in alts(t):
                got.setdefault(cv(x), p)
    if want == PANIC:
        x = sorted(got)[:1]
        return ctx.check(not got, R, showp(f, got[x[0]]) if got else f.entry_body.name, f"{name}: the call continues and returns {x[0][:160] if x else ''}", key=f"{R}:{name}")
    if not ctx.check(bool(got), R, f.entry_body.name, f"{name}: the call never returns", key=f"{R}:{name}:none"):
        return False
    okk = True
    for s, p in got.items():
        okk &= ctx.check(m(want, s), R, showp(f, p), f"{name}: the result is {s[:300]}", key=f"{R}:{name}")
    return okk
def quiet(ctx, R, f, name, assume, place="self%"):
    rr = live_from(f, None, assume)
    off = [e for e in place_events(f, place) if e.p in rr]
    ctx.check(not off, R, f.where(off[0].n) if off else "", f"{name}: {off[0].text()[:200] if off else ''}", key=f"{R}:{name}:changes")

E = "self.core.entries"
S = "self.core.snapshot.metadata"
PR = "self.core.snapshot_peer_requests"
FE, LE = f"first({E})", f"last({E})"
META = [V(S, "ok"), V(S + ".conf_state", "ok")]
FULL = META + [V(FE, "ok"), V(LE, "ok"), T(f"is_empty({E})", False)]
NONE = META + [V(FE, "no"), V(LE, "no"), T(f"is_empty({E})", True)]
# (name, assumptions, first index, last index, index after the last)
LOGS = [("log with entries", FULL, FE + ".index", LE + ".index", [f"(1 Add {LE}.index)", f"({LE}.index Add 1)"]),
        ("empty log", NONE, [f"(1 Add {S}.index)"], S + ".index", [f"(1 Add {S}.index)"])]
FIRST = [FE + ".index", f"(1 Add {S}.index)", f"{{(1 Add {S}.index) | {FE}.index}}"]
def st(ctx, tr, me):
    return ctx.api("MemoryStorage", tr, me)
def err(kind):
    return f"Err{{0=Error::Store{{0=StorageError::{kind}}}}}"

def append(ctx):
    R = "append"
    f = st(ctx, "Store", "append_entries")
    B, EMP = ["$2[0].index", "first($2).index"], [T("is_empty($2)", True), V("first($2)", "no")]
    some = [T("is_empty($2)", False), V("first($2)", "ok")]
    quiet(ctx, R, f, "nothing to append", EMP)
    for nm, base, first, last, nxt in LOGS:
        outcomes(ctx, R, f, f"{nm}, overwriting what was compacted", base + some + [REL(B, "<", first)], PANIC)
        outcomes(ctx, R, f, f"{nm}, leaving a gap", base + some + [REL(nxt, "<", B)], PANIC)
        outcomes(ctx, R, f, f"{nm}, next entries", base + some + [REL(B, "=", nxt)], ["()", "Ok%"])
        for what, ass in (("overwriting what was compacted", [REL(B, "<", first)]), ("leaving a gap", [REL(nxt, "<", B)])):
            quiet(ctx, R, f, f"{nm}, {what}", base + some + ass)
    one = [e for e in place_events(f, E, ("grow",)) if e.args and cv(e.args[-1]) == "$2[*]"]
    table(ctx, R, f, place_events(f, "self.%"), [
        Row("replaced entries removed", [[f"RangeFrom{{start=({b} Sub {x})}}" for x in FIRST for b in B] + [f"({b} Sub {x})" for x in FIRST for b in B]], kind="shrink", target=E, never=[("nothing is appended", EMP)], always=[("entries are appended", some)]),
        Row("entries added", ["$2[*]" if one else "$2"], kind="grow", target=E, never=[("nothing is appended", EMP)], **({"foreach": [("each entry", "$2", some)]} if one else {"always": [("entries are appended", some)]}))], "log")
    gr = [e for e in place_events(f, E, ("grow",))]
    sh = [e for e in place_events(f, E, ("shrink",))]
    r = f.reach([e.p for e in gr], skip_start=True)
    ctx.check(not [e for e in sh if e.p in r], R, f.entry_body.name, "entries are removed after the new ones were added", key=f"{R}:order")
    for e in gr:
        ctx.check(e.n.kind != "call" or e.n.d["cal"].m in ("extend", "extend_from_slice", "append", "push"), R, f.where(e.n), "entries are not added at the end", key=f"{R}:end")

def reads(ctx):
    R = "read"
    f = st(ctx, "Storage", "entries")
    quiet(ctx, R, f, "reading entries", [])
    for nm, base, first, last, nxt in LOGS:
        if base is NONE:
            outcomes(ctx, R, f, nm, base, [err("Unavailable"), err("Compacted")])
            continue
        inside = [REL(first, "<", "$2"), REL("$3", "<", nxt)]
        outcomes(ctx, R, f, f"{nm}, compacted range", base + [REL("$2", "<", first)], err("Compacted"))
        outcomes(ctx, R, f, f"{nm}, range beyond the end", base + [REL(first, "<", "$2"), REL(nxt, "<", "$3")], PANIC)
        outcomes(ctx, R, f, f"{nm}, available range", base + inside, [f"{E}[Range{{start=($2 Sub {x}), end=($3 Sub {x})}}]" for x in FIRST])
        outcomes(ctx, R, f, f"{nm}, from the first entry", base + [REL("$2", "=", first), REL("$3", "<", nxt)], [f"{E}[Range{{start=($2 Sub {x}), end=($3 Sub {x})}}]" for x in FIRST])
        outcomes(ctx, R, f, f"{nm}, up to the last entry", base + [REL(first, "<", "$2"), REL("$3", "=", nxt)], [f"{E}[Range{{start=($2 Sub {x}), end=($3 Sub {x})}}]" for x in FIRST])
    lim = call_events(f, "limit_size")
    ctx.need(lim, "limit on the size of the entries")
    for e in lim:
        ctx.check(m(["$4", "into($4)"], cv(e.args[1])), R, f.where(e.n), f"entries are limited to {cv(e.args[1])}", key=f"{R}:limit")
    good = [p for p, t in ret_values(f) for x in alts(t) if cv(x).startswith(E)]
    off = [p for p in good if p in live_from(f, None, avoid={e.p for e in lim})]
    ctx.check(not off, R, f.entry_body.name, "the size of the entries is not limited", key=f"{R}:unlimited")
    f = st(ctx, "Storage", "term")
    quiet(ctx, R, f, "reading a term", [])
    AT = REL("$2", "=", S + ".index")
    NE = [REL("$2", "<>", S + ".index")]
    outcomes(ctx, R, f, "term of the snapshot", META + [AT], S + ".term")
    for nm, base, first, last, nxt in LOGS:
        outcomes(ctx, R, f, f"{nm}, term of a compacted entry", base + NE + [REL("$2", "<", first)], err("Compacted"))
        outcomes(ctx, R, f, f"{nm}, term beyond the end", base + NE + [REL("$2", ">", last), REL("$2", ">", first)], err("Unavailable"))
        if base is FULL:
            for how, ass in (("inside", [REL(first, "<", "$2"), REL("$2", "<", last)]), ("first", [REL("$2", "=", first), REL("$2", "<", last)]), ("last", [REL(first, "<", "$2"), REL("$2", "=", last)])):
                outcomes(ctx, R, f, f"{nm}, term of an entry ({how})", base + NE + ass, [f"{E}[($2 Sub {x})].term" for x in FIRST])
    f = st(ctx, "Storage", "first_index")
    g = st(ctx, "Storage", "last_index")
    for nm, base, first, last, nxt in LOGS:
        outcomes(ctx, R, f, f"{nm}, first index", base, first)
        outcomes(ctx, R, g, f"{nm}, last index", base, last)
    f = st(ctx, "Storage", "initial_state")
    outcomes(ctx, R, f, "initial state", META, [f"RaftState{{hard_state=self.core.state, conf_state={S}.conf_state}}", f"RaftState{{conf_state={S}.conf_state, hard_state=self.core.state}}"])
    f = st(ctx, "Store", "set_hard_state")
    table(ctx, R, f, place_events(f, "self.%"), [Row("hard state", ["$2"], kind="write", target="self.core.state", always=[("the hard state is set", [])])], "hard state")

def snapshots(ctx):
    R = "snapshot"
    f = st(ctx, "Store", "apply_snapshot")
    N = "$2.metadata"
    good = [V(N, "ok")]
    for nm, base, first, last, nxt in LOGS:
        old = base + good + [REL(N + ".index", "<", first)]
        outcomes(ctx, R, f, f"{nm}, old snapshot received", old, err("SnapshotOutOfDate"))
        quiet(ctx, R, f, f"{nm}, old snapshot received", old)
        for how, op in (("newer", ">"), ("current", "=")):
            outcomes(ctx, R, f, f"{nm}, {how} snapshot received", base + good + [REL(N + ".index", op, first)], ["()", "Ok%"])
    new = [("a snapshot is installed", META + good + [REL(N + ".index", ">", FE + ".index"), REL(N + ".index", ">", f"(1 Add {S}.index)")])]
    table(ctx, R, f, [e for e in place_events(f, "self.%") if not e.target.startswith(PR)], [
        Row("commit index", [N + ".index"], kind="write", target="self.core.state.commit", always=new),
        Row("term", [[f"max(self.core.state.term, {N}.term)", f"max({N}.term, self.core.state.term)", N + ".term"]], kind="write", target="self.core.state.term"),
        Row("log emptied", None, kind=("shrink", "write"), target=E, always=new),
        Row("snapshot", ["$2"], kind="write", target="self.core.snapshot", always=new)], "state")
    for e in place_events(f, "self.core.state.term"):
        if cv(e.args[-1]) == N + ".term":
            off = e.p in live_from(f, None, [REL(N + ".term", "<", "self.core.state.term")])
            ctx.check(not off, R, f.where(e.n), "the term moves backwards", key=f"{R}:term")
    for e in place_events(f, E):
        ctx.check(e.kind == "shrink" and (not e.args or cv(e.args[0]) in ("RangeFull",)) or e.kind == "write" and cv(e.args[-1]) == "new()", R, f.where(e.n), "some entries stay in the log", key=f"{R}:emptied")
    term = [e.p for e in place_events(f, "self.core.state.term")]
    r = live_from(f, None, new[0][1] + [REL(N + ".term", ">", "self.core.state.term")], avoid=set(term))
    ctx.check(bool(term) and not [p for p in f.ends() if p in r], R, f.entry_body.name, "the term of the snapshot is not taken over", key=f"{R}:term-set")

    g = st(ctx, "Store", "create_snapshot")
    for nm, base, first, last, nxt in LOGS:
        outcomes(ctx, R, g, f"{nm}, snapshot beyond the log", base + [REL("$2", ">", last)], PANIC)
        old = base + [REL("$2", "<", first), REL("$2", "<", last)]
        if base is FULL:
            outcomes(ctx, R, g, f"{nm}, snapshot of compacted entries", old, err("SnapshotOutOfDate"))
        quiet(ctx, R, g, f"{nm}, snapshot of compacted entries", old)
        quiet(ctx, R, g, f"{nm}, snapshot beyond the log", base + [REL("$2", ">", last)])
    ev = place_events(g, "self.core.snapshot")
    term = [f"{E}[($2 Sub {x})].term" for x in FIRST] + [S + ".term"]
    now = FULL + [REL("$2", ">", FE + ".index"), REL("$2", "<", LE + ".index")]
    cev = [e for e in place_events(g, "self.%") if not e.target.startswith(PR)]
    # entries = entries.split_off(n) drops the entries before n
    spl = [e for e in cev if e.target == E and e.kind == "write" and cv(e.args[-1]).startswith(f"split_off({E}, ")]
    if spl:
        cev = [e for e in cev if not (e.target == E and e.kind == "shrink" and e.n.kind == "call" and e.n.d["cal"].m == "split_off")]
        cev = [Ev(g, e.n, e.p, "shrink", E, [("agg", "core::ops::RangeTo", "", (("end", e.args[-1][2][1]),))]) if e in spl else e for e in cev]
    table(ctx, R, g, cev, [
        Row("snapshot", [[f"Snapshot{{data=$4, metadata=SnapshotMetadata{{conf_state=$3, index=$2, term={t}}}}}" for t in term]], kind="write", target="self.core.snapshot", always=[("entries are applied", now)]),
        Row("compacted", [[f"RangeTo{{end=($2 Sub {FE}.index)}}", f"Range{{start=0, end=($2 Sub {FE}.index)}}"]], kind="shrink", target=E, never=[("the log is empty", NONE), ("nothing precedes the snapshot", FULL + [REL("$2", "=", FE + ".index")])], always=[("entries are applied", now)])], "state")
    for e in ev:
        for v in alts(e.args[-1]):
            t = next((cv(x) for x in find(v, "term")), "")
            if t == S + ".term":
                ctx.check(e.p not in live_from(g, None, [REL("$2", "<>", S + ".index")]), R, g.where(e.n), "the snapshot gets the term of the previous one", key=f"{R}:created-term")
    # requests of peers
    for nm, h, ass, idx, who in (("received", f, new[0][1], None, None), ("created", g, now, None, None)):
        evs = [e for e in place_events(h, PR + "%")]
        ctx.need(evs, "removal of snapshot requests")
        for e in evs:
            ctx.check(e.kind == "shrink" and e.n.kind == "call" and e.n.d["cal"].m in ("extract_if", "retain", "drain_filter") or e.kind == "shrink" and e.args and cv(e.args[0]).startswith(PR), R, h.where(e.n), f"snapshot {nm}: {e.text()[:160]}", key=f"{R}:requests")
        wr = [e.p for e in place_events(h, "self.core.snapshot")]
        if all(e.args and cv(e.args[0]) == PR + "[*].0" for e in evs):
            removal_loop(ctx, R, h, evs, nm, ass)
            continue
        off = [p for p in h.ends() if p in live_from(h, wr, ass, avoid={e.p for e in call_events(h, ["extract_if", "retain"], PR)} | {e.p for e in evs})]
        ctx.check(not off, R, h.entry_body.name, f"snapshot {nm}: satisfied requests stay", key=f"{R}:requests-stay")
        for e in evs:
            n = e.n
            if n.kind == "call" and n.d["cal"].m in ("extract_if", "retain", "drain_filter"):
                predicate(ctx, R, h, e, nm)

def find(t, name):
    for x in subterms(t):
        if x[0] == "agg" and name in dict(x[3]):
            yield dict(x[3])[name]

MEMBERS = ("voters", "learners", "voters_outgoing")
def removal_loop(ctx, R, f, evs, nm, ass):
    """The same for a loop that removes entries one by one."""
    X = [S + ".index", "$2.metadata.index", "$2"]
    I, W = PR + "[*].1", PR + "[*].0"
    conf = lambda l: [f"{S}.conf_state.{l}[*]", f"$2.metadata.conf_state.{l}[*]", f"$3.{l}[*]"]
    has = lambda l: [f"contains({c[:-3]}, {W})" for c in conf(l)]
    def off(what, a):
        it = iteration(f, PR, a)
        bad = [e for e in evs if e.p in it]
        ctx.check(not bad, R, f.where(bad[0].n) if bad else "", f"snapshot {nm}: {what} is dropped", key=f"{R}:predicate-late")
    off("a request for a later snapshot", [REL(X, "<", I)])
    off("the request of a peer that is no member", [x for l in MEMBERS for x in (REL(W, "<>", conf(l)), T(has(l), False))])
    for l in MEMBERS:
        a = [REL(X, ">", I), REL(W, "=", conf(l)), T(has(l), True), V([f"next({c[:-3]})" for c in conf(l)], "ok")] + [x for o in MEMBERS if o != l for x in (V([f"next({c[:-3]})" for c in conf(o)], "no"), T(has(o), False))]
        okk, why = foreach_states(f, [e.p for e in evs], PR, a, base=ass)
        ctx.check(okk, R, f.entry_body.name, f"snapshot {nm}: a satisfied request of one of the {l} stays: {why}", key=f"{R}:requests-stay")
def predicate(ctx, R, f, e, nm):
    """extract_if removes a request exactly if the snapshot is recent enough and
    its configuration has the peer; retain is the opposite."""
    rm = e.n.d["cal"].m != "retain"
    cl = e.args[-1] if e.args else None
    if not ctx.check(cl is not None and cl[0] == "cl" and cl[1] in ctx.prog.bodies, R, f.where(e.n), f"snapshot {nm}: it is not decidable which requests are removed", key=f"{R}:predicate"):
        return
    IDX = [S + ".index", "$2.metadata.index", "$2"]
    CFG = [S + ".conf_state", "$2.metadata.conf_state", "$3", S, "$2.metadata", "self.core.snapshot", "$2"]
    for c in cl[2]:
        ctx.check(m(IDX + CFG, cv(c)), R, f.where(e.n), f"snapshot {nm}: requests are compared with {cv(c)[:160]}", key=f"{R}:predicate-with")
    wr = [w.p for w in place_events(f, "self.core.snapshot")]
    r = f.reach(wr)
    if any(cv(c).startswith("self.core.snapshot") for c in cl[2]):
        rd = capture_reads(f, cl[1])
        ctx.need(rd, "what the removal of requests looks at")
        for n in rd:
            stale = [p for p in f.bynode[n.id] if p not in r]
            ctx.check(not stale, R, f.where(n), f"snapshot {nm}: requests are compared with the previous snapshot", key=f"{R}:predicate-stale")
    g = ctx.flow(ctx.prog.bodies[cl[1]])
    yes, no = ("true", "false") if rm else ("false", "true")
    I, W = "$3", "$2"
    X = ["$1.^%"]
    conf = lambda l: [f"$1.^%.{l}[*]"]
    outcomes(ctx, R, g, f"snapshot {nm}, request for a later snapshot", [REL(X, "<", I)], no)
    outcomes(ctx, R, g, f"snapshot {nm}, request of a peer that is no member", [REL(W, "<>", [c for l in MEMBERS for c in conf(l)])] + [T([f"contains($1.^%.{l}, $2)"], False) for l in MEMBERS], no)
    for l in MEMBERS:
        for how, op in (("earlier", ">"), ("same", "=")):
            outcomes(ctx, R, g, f"snapshot {nm}, request of one of the {l} for an {how} entry", [REL(X, op, I), REL(W, "=", conf(l)), T([f"contains($1.^%.{l}, $2)"], True), V([f"next($1.^%.{l})"], "ok")] + [x for o in MEMBERS if o != l for x in (V([f"next($1.^%.{o})"], "no"), T([f"contains($1.^%.{o}, $2)"], False))], yes)

def requests(ctx):
    R = "requests"
    f = st(ctx, "Storage", "snapshot")
    who, C = "$3", S + ".conf_state"
    member = lambda l: [REL(who, "=", f"{C}.{l}[*]"), T(f"contains({C}.{l}, {who})", True)]
    late = META + [REL(S + ".index", "<", "$2")]
    ok = META + [REL(S + ".index", ">", "$2")]
    eq = META + [REL(S + ".index", "=", "$2")]
    out = [x for l in MEMBERS for x in (REL(who, "<>", f"{C}.{l}[*]"), T(f"contains({C}.{l}, {who})", False))]
    W = err("SnapshotTemporarilyUnavailable")
    outcomes(ctx, R, f, "snapshot that is too old", late, W)
    outcomes(ctx, R, f, "snapshot without the peer", ok + out, W)
    for nm, base in (("newer", ok), ("exact", eq)):
        for l in ("voters", "learners", "voters_outgoing"):
            others = [x for o in MEMBERS if o != l for x in (V(f"next({C}.{o})", "no"), T(f"contains({C}.{o}, {who})", False))]
            ctx.check(any(tested(f, x) for x in member(l)), R, f.entry_body.name, f"{l} are not looked at", key=f"{R}:{l}")
            outcomes(ctx, R, f, f"{nm} snapshot for one of the {l}", base + member(l) + others + [V(f"next({C}.{l})", "ok")], "self.core.snapshot")
    table(ctx, R, f, place_events(f, "self.%"), [Row("request", ["$3", "$2"], kind="grow", target=PR, never=[("the snapshot is given out", ok + member("voters") + [V(f"next({C}.voters)", "ok")])],
          always=[("the snapshot is too old", late), ("the peer is not in the snapshot", ok + out)])], "requests")
    for e in place_events(f, PR, ("grow",)):
        ctx.check(e.n.kind != "call" or not e.n.d["cal"].m.startswith("or_"), R, f.where(e.n), "an earlier request of the peer is kept instead", key=f"{R}:replaced")
    g = st(ctx, "Store", "should_snapshot")
    quiet(ctx, R, g, "the decision to take a snapshot", [])
    SUM = [f"(self.core.max_snapshot_diff Add {S}.index)", f"({S}.index Add self.core.max_snapshot_diff)"]
    far, near = [V(S, "ok"), REL(SUM, "<", "$2")], [V(S, "ok"), REL(SUM, ">", "$2")]
    exact = [V(S, "ok"), REL(SUM, "=", "$2")]
    outcomes(ctx, R, g, "snapshot too far behind", far, "true")
    outcomes(ctx, R, g, "recent snapshot, nothing requested", near + [V(f"next({PR})", "no")], "false")
    outcomes(ctx, R, g, "snapshot at the limit, nothing requested", exact + [V(f"next({PR})", "no")], "false")
    outcomes(ctx, R, g, "requests for later snapshots", near + [REL("$2", "<", PR + "[*].1")], "false")
    outcomes(ctx, R, g, "requests of peers that are not members", near + [x for l in MEMBERS for x in (REL(PR + "[*].0", "<>", f"$3.{l}[*]"), T(f"contains($3.{l}, {PR}[*].0)", False))], "false")
    for l in ("voters", "learners", "voters_outgoing"):
        others = [x for o in MEMBERS if o != l for x in (V(f"next($3.{o})", "no"), T(f"contains($3.{o}, {PR}[*].0)", False))]
        for nm, op in (("before", ">"), ("at", "=")):
            outcomes(ctx, R, g, f"request of one of the {l} for an entry {nm} the applied one", near + others + [V(f"next({PR})", "ok"), V(f"next($3.{l})", "ok"), REL("$2", op, PR + "[*].1"), REL(PR + "[*].0", "=", f"$3.{l}[*]"), T(f"contains($3.{l}, {PR}[*].0)", True)], "true")
    h = st(ctx, "Store", "latest_snapshot_size")
    outcomes(ctx, R, h, "size of the snapshot", [], ["len(self.core.snapshot.data)"])
