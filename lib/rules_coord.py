"""Transaction coordinator (tablet cache): C01..C07."""
from rlib import *

C, TT = "DefaultTabletTransactionCoordinator", "TabletTransactionCoordinator"
NI = ("check_result", "create_eventual_result")
TX = "self.transactions[$2]"
def co(ctx, me):
    return ctx.api(C, TT, me, noinline=NI)
PST = ["Pending", "Resolving", "Loading", "Storing", "Completed", "Failed"]
PR = "self.transactions[%].Preparing.0.process_requests"

def commit_request(ctx):
    f = co(ctx, "commit_transaction")
    R = "commit-request"
    notdone = [(f"a process is {s}", PR, [V("%.process_requests[*].status", s)]) for s in PST if s != "Completed"]
    ev = place_events(f, "self.out_messages")
    table(ctx, R, f, ev, [Row("commit request", ["%::ExecuteTabletOpsRequest{0=%, 1=%}"], kind="grow",
        never=[("the transaction was committed before", [V(TX, "Committing", "Completed")]),
               ("the transaction does not exist", [V("get(self.transactions, $2)", "no")])],
        forall=notdone)], "outgoing messages of commit")
    # the resulting state
    sets = map_events(f, "self.transactions")
    sent = [e.p for e in ev]
    table(ctx, R, f, sets, [
        Row("transaction waits for the response", ["$2", "TabletTransactionState::Committing{%"], forall=notdone),
        Row("transaction fails", ["$2", "TabletTransactionState::Completed{0=TabletTransactionOutcome::Failed}"])], "state after commit")
    fail = [e for e in sets if "Completed" in cv(e.args[1])]
    ok = [e for e in sets if "Committing" in cv(e.args[1])]
    both(ctx, R, f, [e.p for e in ok], sent, "a transaction waits for a response exactly when the request was sent")
    exclusive(ctx, R, f, [e.p for e in fail], sent, "a failed transaction sends no request")
    r = live_from(f, avoid={e.p for e in sets})
    off = [p for p in f.ends() if p in r]
    ctx.check(not off, R, f.entry_body.name, "commit may return without moving the transaction to its next state", key=R + ":nostate")
    ctors_within(ctx, R, "TabletTransactionCoordinatorOutMessage", "ExecuteTabletOpsRequest", [f], "commit requests")
    ctors_within(ctx, R, "TabletTransactionState", "Committing", [f], "committing state")
    # same ops in request and in what the response is compared with
    for e in ok:
        t = e.args[1]
        ops = flow.mk_fld(flow.mk_payload(t, "Committing", "0", False), "tablet_ops")
        req = {flow.mk_fld(alts(x.args[-1])[0], "1") for x in ev}
        ctx.check(all(ops == x or x in alts(ops) or ops in alts(x) for x in req), R, f.where(e.n), "the ops kept for the response differ from the ops sent", key=R + ":ops")

def both(ctx, rule, f, a, b, text):
    """States a and b occur together on every completed path."""
    for x, y in ((a, b), (b, a)):
        # a path through x that reaches the end without y before or after
        pre = live_from(f, avoid=set(y))
        st = [p for p in x if p in pre]
        r = live_from(f, st, avoid=set(y)) if st else set()
        off = [p for p in f.ends() if p in r]
        if off:
            ctx.bad(rule, showp(f, st[0]), text + ": one happens without the other", key=rule + ":" + text, path=f.path(off[0]))
            return
    ctx.ok(rule, text)
def exclusive(ctx, rule, f, a, b, text):
    r = live_from(f, a, skip_start=True)
    r2 = live_from(f, b, skip_start=True)
    off = [p for p in b if p in r] + [p for p in a if p in r2]
    ctx.check(not off, rule, f.entry_body.name, text + ": both may happen", key=rule + ":" + text)

CORR = "remove(self.correlations, $3.ExecuteTabletOpsResponse.0)"
RES, OPS = "$3.ExecuteTabletOpsResponse.1", "self.transactions[%].Committing.0.tablet_ops"
def commit_outcome(ctx):
    f = co(ctx, "process_in_message")
    R = "commit-outcome"
    st = lambda *v: V(f"{RES}[*].status", *v, adt="TabletOpStatus", prog=ctx.prog)
    names = [v[0] for v in ctx.prog.adt("TabletOpStatus")["variants"]]
    sets = map_events(f, "self.transactions")
    unmatched = [("no response was awaited", [V("remove(self.correlations, %", "no")]),
                 ("the transaction is gone", [V("get(self.transactions, %", "no")]),
                 ("the transaction is not committing", [V("self.transactions[%]", "Preparing", "Completed")])]
    table(ctx, R, f, sets, [
        Row("success", [CORR, "TabletTransactionState::Completed{0=TabletTransactionOutcome::Succeeded}"],
            never=unmatched + [("fewer or more results than ops", [REL(f"len({RES})", "<>", f"len({OPS})")])],
            forall=[(f"an op result is {s}", RES, [st(s)]) for s in names if s != "Succeeded"]),
        Row("failure", [CORR, "TabletTransactionState::Completed{0=TabletTransactionOutcome::Failed}"],
            never=unmatched + [("all ops succeeded", [st("Succeeded"), REL(f"len({RES})", "=", f"len({OPS})")])])], "outcome of a commit")
    r = live_from(f, assume=[V("remove(self.correlations, %", "ok"), V("get(self.transactions, %", "ok"), V("self.transactions[%]", "Committing")], avoid={e.p for e in sets})
    off = [p for p in f.ends() if p in r]
    ctx.check(not off, R, f.entry_body.name, "a response to a committing transaction may leave it undecided", key=R + ":undecided")
    ctors_within(ctx, R, "TabletTransactionState", "Completed", [f, co(ctx, "commit_transaction")], "outcomes")
    ctors_within(ctx, R, "TabletTransactionOutcome", "Succeeded", [f], "outcomes")

def metadata_updates(ctx):
    f = co(ctx, "process_in_message")
    R = "metadata-updates"
    st = lambda *v: V(f"{RES}[*].status", *v, adt="TabletOpStatus", prog=ctx.prog)
    names = [v[0] for v in ctx.prog.adt("TabletOpStatus")["variants"]]
    bad = [s for s in names if s != "Succeeded"]
    calls = ctx.need(f.calls(tr="TabletMetadataCache", m="update_tablet"), "update_tablet call")
    evs = []
    for n in calls:
        seen = set()
        for p in f.bynode[n.id]:
            env = f.env_of(p)
            tup = ("agg", "tuple", "", tuple((str(i), f.argt(n, i, env)) for i in range(1, 4)))
            for n2, t in expand(f, n, tup):
                ps = [p] if n2 is n else f.bynode[n2.id]
                for q in ps:
                    if (q, t) not in seen:
                        seen.add((q, t))
                        evs.append(Ev(f, n2, q, "call", "update_tablet", [x for _, x in t[3]]))
    both_names = [f"{OPS}[*].table_name", f"{RES}[*].table_name"]
    rows = []
    for op in ("CheckTablet", "UpdateTablet"):
        ex = f"{RES}[*].op_result.{op}.0.existing_tablet"
        fail = [V(f"%Committing.0.tablet_ops[*].op?", op), V(f"{RES}[*].op_result?", op), V(f"%.op", "ok"), V(f"%.op_result", "ok"), V(f"%.existing_tablet", "ok"), st(*bad), REL(f"len({RES})", "=", f"len({OPS})")]
        rows.append(Row(f"tablet found by a failed {op}", [both_names, ex, "true"], never=[("the op succeeded", [st("Succeeded")])],
                        foreach=[("for each failed op that reports a tablet", OPS, fail)]))
    upd = [V(f"%Committing.0.tablet_ops[*].op?", "UpdateTablet"), V(f"%.op", "ok"), V(f"%.op_result", "ok"), V(f"{RES}[*].op_result?", "UpdateTablet"), st("Succeeded"), REL(f"len({RES})", "=", f"len({OPS})")]
    rows.append(Row("updated tablet", [both_names, f"{OPS}[*].op.UpdateTablet.0.tablet_metadata", "false"],
                    forall=[(f"an op result is {s}", RES, [st(s)]) for s in bad],
                    foreach=[("for each updated tablet when all ops succeeded", OPS, upd, [st("Succeeded")])]))
    table(ctx, R, f, evs, rows, "metadata handed to the metadata cache")
    # everything collected is handed over
    for n in calls:
        for x in {y for i in (1, 2, 3) for t in argvals(f, n, i) for y in subterms(t) if y[0] == "next" and is_local_coll(y[1])}:
            ok, why = foreach_states(f, f.bynode[n.id], "new()")
            ctx.check(ok, R, f.where(n), "collected metadata is not handed over: " + why, key=R + ":handover")

P = "self.transactions[*].1.Preparing.0.process_requests[*]"
def stage(ctx, s, outcome=None):
    """Assumptions: the process is in this stage, its result is as given."""
    a = [V(P + ".status", s)]
    r = f"ResultHandle::check_result({P}.status.{s}.0)"
    if outcome == "pending":
        a.append(V(r, "no"))
    elif outcome == "ok":
        a += [V(r, "ok"), V(r + "?", "ok")]
    elif outcome == "err":
        a += [V(r, "ok"), V(r + "?", "no")]
    return a
def stages_except(s):
    return [(f"the process is {x}", [V(P + ".status", x)]) for x in PST if x != s]
def not_done(s):
    r = f"ResultHandle::check_result({P}.status.{s}.0)"
    return [("the awaited result is not available", [V(r, "no")]), ("the awaited result is an error", [V(r + "?", "no")])]

def progress_stages(ctx):
    f = co(ctx, "make_progress")
    R = "stages"
    PRO = P[:-3]
    ws = place_events(f, P + ".status")
    S = "TabletProcessStatus::"
    res, ld, st = (f"ResultHandle::check_result({P}.status.{x}.0)" for x in ("Resolving", "Loading", "Storing"))
    per = table(ctx, R, f, ws, [
        Row("queries are resolved", [f"{S}Resolving{{0=TabletMetadataCache::resolve_tablets($3, {P}.status.Pending.0)}}"], never=stages_except("Pending"),
            foreach=[("for each pending process", PRO, stage(ctx, "Pending"))]),
        Row("resolved tablets are loaded", [f"{S}Loading{{0=TabletDataCache::load_tablets($4, %)}}"], never=stages_except("Resolving") + not_done("Resolving"),
            foreach=[("for each resolved process", PRO, stage(ctx, "Resolving", "ok"))]),
        Row("processed tablets are stored", [f"{S}Storing{{0=TabletDataCache::store_tablets($4, %)}}"], never=stages_except("Loading") + not_done("Loading"),
            foreach=[("for each loaded process", PRO, stage(ctx, "Loading", "ok"))]),
        Row("stored process completes", [f"{S}Completed"], never=stages_except("Storing") + not_done("Storing"),
            foreach=[("for each stored process", PRO, stage(ctx, "Storing", "ok"))]),
        Row("failed process fails", [f"{S}Failed"],
            never=[("the process is " + x, [V(P + ".status", x)]) for x in ("Pending", "Completed", "Failed")] +
                  [(f"{x} succeeded", stage(ctx, x, "ok")) for x in ("Resolving", "Loading", "Storing")] +
                  [(f"{x} is unfinished", stage(ctx, x, "pending")) for x in ("Resolving", "Loading", "Storing")],
            foreach=[(f"for each process whose {x} failed", PRO, stage(ctx, x, "err")) for x in ("Resolving", "Loading", "Storing")])], "stage of a process")
    for what, a in [(f"a {x.lower()} process is left alone", stage(ctx, x)) for x in ("Completed", "Failed", "Pending")] + [(f"unfinished {x.lower()} is awaited", stage(ctx, x, "pending")) for x in ("Resolving", "Loading", "Storing")] + [(f"failed {x.lower()} fails the process", stage(ctx, x, "err")) for x in ("Resolving", "Loading", "Storing")]:
        no_panic(ctx, R, f, iteration(f, PRO, a), what)
    # every preparing transaction is visited
    inner = [p for h in loops(f, PRO) for p in f.bynode[h.id]]
    ok, why = foreach_states(f, inner, "self.transactions", [V("self.transactions[*].1", "Preparing")])
    ctx.check(ok, R, f.entry_body.name, "not every preparing transaction makes progress: " + why, key=R + ":visit")
    # arguments of load and store
    for n in ctx.need(f.calls(tr="TabletDataCache", m="load_tablets"), "load_tablets call"):
        for t in argvals(f, n, 1):
            elems(ctx, R, f, n, t, f"{res}[*].1", "tablets to load", source=res)
    for n in ctx.need(f.calls(tr="TabletDataCache", m="store_tablets"), "store_tablets call"):
        for t in argvals(f, n, 1):
            elems(ctx, R, f, n, t, f"({P}.tablets[*].1.tablet.metadata, take({P}.tablets[*].1.tablet.updated_contents))", "tablets to store",
                  source=P + ".tablets", assume=[V(f"take({P}.tablets[*].1.tablet.updated_contents)", "ok")])
    for tr, me, s in (("TabletMetadataCache", "resolve_tablets", "Pending"), ("TabletDataCache", "load_tablets", "Resolving"), ("TabletDataCache", "store_tablets", "Loading")):
        calls = f.calls(tr=tr, m=me)
        want = {"resolve_tablets": "Resolving", "load_tablets": "Loading", "store_tablets": "Storing"}[me]
        dst = [e.p for e in ws if cv(e.args[0]).startswith(S + want)]
        heads = [p for h in loops(f, PRO) for p in f.bynode[h.id]]
        r = f.reach(f.P(calls), avoid=set(dst), skip_start=True)
        off = [p for p in list(heads) + f.ends() if p in r]
        ctx.check(not off, R, f.where(calls[0]), f"the process may stay in its stage after {me} was called and call it again", key=f"{R}:{me}:again")

def handler_called(ctx):
    f = co(ctx, "make_progress")
    R = "handler"
    PRO = P[:-3]
    ld = f"ResultHandle::check_result({P}.status.Loading.0)"
    rs = f"ResultHandle::check_result({P}.status.Resolving.0)"
    hc = [e for e in call_events(f, ["FnMut::call_mut", "%call_mut", "%call_once", "%::call"]) if e.args and m(f"{P}.handler", cv(e.args[0]))]
    ctx.need(hc, "call of the process handler")
    txid = "self.transactions[*].1.Preparing.0.transaction_id"
    per = table(ctx, R, f, hc, [Row("handler", [f"{P}.handler", [f"({txid}, %)", "(self.transactions[*].0, %)"]], never=stages_except("Loading") + not_done("Loading"),
        foreach=[("for each process whose tablets are loaded", PRO, stage(ctx, "Loading", "ok"))])], "calls of the process handler")
    seen = set()
    for e in hc:
        if e.args[1][0] != "agg":
            continue
        t = e.args[1][3][1][1]
        if (e.n.id, t) not in seen:
            seen.add((e.n.id, t))
            elems(ctx, R, f, e.n, t, f"({P}.tablets[*].1.query, {P}.tablets[*].1.tablet)", "tablets given to the handler", source=P + ".tablets")
    # once per process: the stage changes before the process is looked at again
    heads = {p for h in loops(f, PRO) for p in f.bynode[h.id]}
    r = f.reach([e.p for e in hc], avoid=heads, skip_start=True)
    ctx.check(not [e for e in hc if e.p in r], R, f.where(hc[0].n), "the handler may run twice for one process", key=R + ":twice")
    # data is set before the handler, updates are collected after it
    cont = place_events(f, f"{P}.tablets[%].tablet.contents", ("write",)) + place_events(f, f"{P}.tablets[*].1.tablet.contents", ("write",))
    table(ctx, R, f, cont, [Row("loaded contents", [f"{ld}[*].1"], foreach=[("for each loaded tablet", ld, [])])], "contents of loaded tablets")
    r = f.reach([e.p for e in hc], avoid=heads, skip_start=True)
    ctx.check(not [e for e in cont if e.p in r], R, f.where(hc[0].n), "contents are set after the handler ran", key=R + ":late-contents")
    takes = place_events(f, f"{P}.tablets[*].1.tablet.updated_contents", ("shrink",))
    ctx.need(takes, "updated contents taken for storing")
    r = f.reach([e.p for e in takes], avoid=heads, skip_start=True)
    ctx.check(not [e for e in hc if e.p in r], R, f.where(hc[0].n), "the handler runs after the updates were collected", key=R + ":early-collect")
    # tablets tracked under the key that the loaded data is matched by
    ins = [e for e in map_events(f, P + ".tablets")]
    table(ctx, R, f, ins, [Row("tracked tablet", [None, f"%{{query={rs}[*].0, tablet=%{{metadata={rs}[*].1, contents=None, updated_contents=None, is_dirty=false}}}}"],
        foreach=[("for each resolved tablet", rs, [])], never=stages_except("Resolving") + not_done("Resolving"))], "tablets of a process")
    k1 = {cv(e.args[0]).replace(f"{rs}[*].1", "M") for e in ins}
    k2 = set()
    for e in cont:
        t = e.target
        mm = re.search(r"\.tablets\[(.*)\]\.tablet\.contents$", t)
        if mm:
            k2.add(mm.group(1).replace(f"{ld}[*].0", "M"))
    ctx.check(k1 == k2 and len(k1) == 1, R, f.where(ins[0].n) if ins else f.entry_body.name, f"tablets are tracked under {sorted(k1)} but loaded data is matched by {sorted(k2)}", key=R + ":key")
    for k in k1:
        okk = k in ("((M.tablet_id Shl 32) BitOr M.tablet_version)", "((M.tablet_id Shl 32) Add M.tablet_version)", "(M.tablet_id, M.tablet_version)", "M.tablet_id",
                    "((M.tablet_version Shl 32) BitOr M.tablet_id)", "(M.tablet_version, M.tablet_id)")
        ctx.check(okk, R, f.where(ins[0].n), f"distinct tablets may share the key {k}", key=R + ":injective")

def fresh_id(ctx, rule, f, counter, uses, what):
    """Identifiers come from a counter that is advanced exactly once per use."""
    ws = place_events(f, counter, ("write",))
    if not ws:
        ctx.bad(rule, f.entry_body.name, f"{what}: the counter {counter} is not advanced", key=f"{rule}:counter")
        return
    ok = True
    for e in ws:
        s = cv(e.args[0])
        if not re.fullmatch(r"\((?:[1-9]\d* Add " + re.escape(counter) + "|" + re.escape(counter) + r" Add [1-9]\d*)\)", s):
            ok = False
            ctx.bad(rule, f.where(e.n), f"{what}: the counter becomes {s}", key=f"{rule}:counter-value")
    vals = set()
    for e, t in uses:
        s = cv(t)
        vals.add(s)
        if not re.fullmatch(r"\((?:[1-9]\d* Add " + re.escape(counter) + "|" + re.escape(counter) + r" Add [1-9]\d*)\)|" + re.escape(counter), s):
            ok = False
            ctx.bad(rule, f.where(e.n), f"{what}: the identifier is {s}", key=f"{rule}:id-value")
    wp = {e.p for e in ws}
    # the counter after the increment is the sum computed before it
    late = sums_after(f, counter, wp, stop_heads(f))
    sums = {cv(e.args[0]) for e in ws}
    if len(vals) > 1 and (late or not (len(sums) == 1 and vals <= sums | {counter})):
        ok = False
        ctx.bad(rule, f.where(uses[0][0].n), f"{what}: different identifiers are used: {sorted(vals)}", key=f"{rule}:id-differs")
    elif late:
        ok = False
        ctx.bad(rule, f.where(late[0]), f"{what}: an identifier is computed from the counter after it was advanced", key=f"{rule}:id-late")
    up = [e.p for e, _ in uses]
    # no use without advancing: on every completed path through a use
    pre = live_from(f, avoid=wp)
    st = [p for p in up if p in pre]
    if st and counter in vals:
        ok = False
        ctx.bad(rule, showp(f, st[0]), f"{what}: an identifier is used before the counter is advanced", key=f"{rule}:stale-id")
    elif st:
        r = live_from(f, st, avoid=wp)
        if any(p in r for p in f.ends()):
            ok = False
            ctx.bad(rule, showp(f, st[0]), f"{what}: the counter may not be advanced", key=f"{rule}:stale-id")
    if ok:
        ctx.ok(rule, f"{what}: fresh identifier from {counter}")

def correlation(ctx):
    f = co(ctx, "commit_transaction")
    R = "correlation"
    req = place_events(f, "self.out_messages", ("grow",))
    cor = map_events(f, "self.correlations")
    ctx.need(req, "commit request"); ctx.need(cor, "record of the correlation id")
    table(ctx, R, f, cor, [Row("response is mapped to the transaction", [None, "$2"])], "correlations")
    fresh_id(ctx, R, f, "self.correlation_counter", [(e, flow.mk_fld(alts(e.args[-1])[0], "0")) for e in req] + [(e, e.args[0]) for e in cor], "commit request")
    both(ctx, R, f, [e.p for e in req], [e.p for e in cor], "request and record of its correlation id")
    once(ctx, R, f, req, "commit request")
    g = co(ctx, "process_in_message")
    rm = place_events(g, "self.correlations", ("shrink",))
    table(ctx, R, g, rm, [Row("a response is matched once", ["$3.ExecuteTabletOpsResponse.0"])], "correlations on response")
    ends = live_from(g, avoid={e.p for e in rm}, assume=[V("$3", "ExecuteTabletOpsResponse")])
    ctx.check(not [p for p in g.ends() if p in ends], R, g.entry_body.name, "a response may leave its correlation id in place", key=R + ":kept")
    # effects of a response only when it was awaited
    eff = map_events(g, "self.transactions") + call_events(g, "TabletMetadataCache::update_tablet")
    table(ctx, R, g, eff, [Row("effect of a response", None, never=[("no response was awaited under this id", [V("remove(self.correlations, %", "no")]),
        ("the transaction is gone", [V("get(self.transactions, %", "no")]), ("the transaction is not committing", [V("self.transactions[%]", "Preparing", "Completed")])])], "effects of a response")
    for me in ("make_progress", "create_transaction", "process_transaction", "abort_transaction", "check_transaction_result", "has_transaction_pending_process", "take_out_messages"):
        h = co(ctx, me)
        ev = place_events(h, ["self.correlations", "self.correlation_counter"]) + (place_events(h, "self.out_messages", ("grow", "write")))
        ctx.check(not ev, R, h.entry_body.name, f"changes correlations or emits messages: {[e.text() for e in ev][:2]}", key=f"{R}:{me}")

def once(ctx, rule, f, evs, what):
    ps = [e.p for e in evs]
    r = f.reach(ps, skip_start=True)
    # a second occurrence of the same or another node later on the path
    off = [p for p in ps if p in r]
    ctx.check(not off, rule, f.where(evs[0].n) if evs else f.entry_body.name, f"{what} may happen twice", key=f"{rule}:twice:{what}")

def tablet_ops(ctx):
    f = co(ctx, "commit_transaction")
    R = "tablet-ops"
    B = "self.transactions[$2].Preparing.0.process_requests"
    X = B + "[*].tablets[*].1"
    ev = place_events(f, "self.out_messages", ("grow",))
    ctx.need(ev, "commit request")
    n = ev[0].n
    seen = set()
    for e in ev:
        ops = flow.mk_fld(alts(e.args[-1])[0], "1")
        sites = elem_sites(f, e.n, ops)
        ctx.check(bool(sites), R, f.where(e.n), "the commit request contains no tablet ops", key=R + ":none")
        for nodes, v in sites:
            for q in nodes or [e.n]:
                if q.id in seen:
                    continue
                seen.add(q.id)
                evs = []
                for p in f.bynode[q.id]:
                    env = f.env_of(p)
                    t = f.desc(q.d["desc"], env) if q.kind == "item" else f.argt(q, f.nargs(q) - 1, env)
                    evs.append(Ev(f, q, p, "op", "tablet op", [t]))
                tn = f"TabletOp{{table_name={X}.query.table_name, op=Op::"
                table(ctx, R, f, evs, [
                    Row("written tablet is updated", [tn + f"UpdateTablet{{0=UpdateTabletOp{{tablet_metadata={X}.tablet.metadata}}}}}}"], never=[("the tablet was not written", [T(X + ".tablet.is_dirty", False)])]),
                    Row("read tablet is checked", [tn + f"CheckTablet{{0=CheckTabletOp{{tablet_id={X}.tablet.metadata.tablet_id, tablet_version={X}.tablet.metadata.tablet_version}}}}}}"],
                        never=[("the tablet was written", [T(X + ".tablet.is_dirty", True)])])], "op of a tablet")
                ok, why = foreach_states(f, f.bynode[q.id], B + "[*].tablets", [])
                ctx.check(ok, R, f.where(q), "an affected tablet has no op: " + why, key=R + ":tablets")
                heads = [p for h in loops(f, B + "[*].tablets") for p in f.bynode[h.id]]
                hs = [h for h in loops(f, B)]
                okp = False
                for h in hs:
                    okp = okp or foreach_states(f, heads, B, [V(B + "[*].status", "Completed")], heads=[h], base=[V(B + "[*].status", "Completed")])[0]
                ctx.check(okp, R, f.where(q), "tablets of a completed process have no ops", key=R + ":processes")
    # the dirty flag and the contents
    for me, spec in (("set_contents", [("self.is_dirty", "true"), ("self.updated_contents", "$2")]),):
        g = ctx.flow(ctx.body(selfty="Tablet", method=me))
        for path, val in spec:
            table(ctx, R, g, place_events(g, path), [Row(f"{path} on {me}", [val], always=[("always", [])])], f"Tablet::{me}")
    g = ctx.flow(ctx.body(selfty="Tablet", method="take_updated_contents"))
    ctx.check(all(cv(t) == "take(self.updated_contents)" for _, t in ret_values(g)), R, g.entry_body.name, f"returns {[cv(t) for _, t in ret_values(g)]}", key=R + ":take")
    ctx.check(not place_events(g, "self.is_dirty"), R, g.entry_body.name, "the tablet is no longer dirty once its update was taken", key=R + ":dirty")
    for me, val in (("is_dirty", "self.is_dirty"), ("get_contents", ["self.contents", "self.contents.data"]), ("get_id", "self.metadata.tablet_id"), ("get_metadata", "self.metadata"), ("get_metadata_mut", "self.metadata")):
        g = ctx.flow(ctx.body(selfty="Tablet", method=me))
        vs = [cv(t) for _, t in ret_values(g)]
        ctx.check(vs and all(m(val, v) for v in vs), R, g.entry_body.name, f"returns {vs}", key=f"{R}:{me}")
    for b in ctx.prog.bodies.values():
        if b.crate != "tcp_tablet_cache_service" or b.derived:
            continue
        for bb in b.bb:
            for s in (bb[0] if bb else []):
                if s[0] == "setdisc":
                    continue
                if len(s[0]) > 1 and isinstance(s[0][-1], str) and s[0][-1].startswith(".is_dirty|") and short(s[0][-1].split("|")[1]) == "Tablet":
                    isset = s[1][0] == "use" and s[1][1][0] == "k" and s[1][1][1].replace("const ", "") == "true"
                    ctx.check(isset, R, f"{b.file}:{s[2]} in {b.name}", "a tablet is marked clean", key=f"{R}:clean:{b.name}")

def lifecycle(ctx):
    R = "lifecycle"
    f = co(ctx, "create_transaction")
    ins = map_events(f, "self.transactions")
    table(ctx, R, f, ins, [Row("new transaction is preparing", [None, "TabletTransactionState::Preparing{0=%process_requests=new()%"], always=[("a transaction is created", [])])], "create")
    rets = ret_values(f)
    fresh_id(ctx, R, f, "self.transaction_counter", [(e, e.args[0]) for e in ins] + [(Ev(f, f.end, p, "ret", "", [t]), t) for p, t in rets] +
             [(e, flow.mk_fld(flow.mk_payload(e.args[1], "Preparing", "0", False), "transaction_id")) for e in ins], "transaction id")
    f = co(ctx, "process_transaction")
    reqs = place_events(f, "self.transactions[%].Preparing.0.process_requests")
    table(ctx, R, f, reqs, [Row("process starts pending", ["%{status=TabletProcessStatus::Pending{0=$3}, handler=$4, tablets=new()}"], kind="grow", target="self.transactions[$2].Preparing.0.process_requests",
        always=[("process is requested", [])], never=[("commit was initiated", [V(TX, "Committing", "Completed")])])], "process")
    f = co(ctx, "has_transaction_pending_process")
    B = "self.transactions[$2].Preparing.0.process_requests"
    rs = ret_states(f)
    evs = [Ev(f, f.nodes[f.pnodes[p][0]], p, "ret", "result", [t]) for p, t in flat_rets(f)]
    act = ["Pending", "Resolving", "Loading", "Storing"]
    table(ctx, R, f, evs, [
        Row("nothing is pending", ["false"]),
        Row("processing is pending", ["true"], never=[("every process ended", [V(B + "[*].status", "Completed", "Failed")]), ("nothing is processed by a committed transaction", [V("self.transactions[$2]", "Committing", "Completed")])])], "pending processing")
    fl = [e.p for e in evs if cv(e.args[0]) == "false"]
    for s in act:
        ok, off = forall_states(f, fl, B, [V(B + "[*].status", s)], base=[V("self.transactions[$2]", "Preparing")])
        ctx.check(ok, R, f.entry_body.name, f"reports that nothing is pending although a process is {s}", key=f"{R}:pending:{s}")
    f = co(ctx, "check_transaction_result")
    evs = [Ev(f, f.nodes[f.pnodes[p][0]], p, "ret", "result", [t]) for p, t in flat_rets(f)]
    rm = place_events(f, "self.transactions", ("shrink", "grow", "write"))
    st = "self.transactions[$2]"
    table(ctx, R, f, evs, [
        Row("outcome known", ["self.transactions[$2].Completed.0"], never=[("the transaction is committing", [V(st, "Committing")]), ("the transaction is preparing", [V(st, "Preparing")])]),
        Row("outcome unknown", ["None"], never=[("the transaction completed", [V(st, "Completed")])])], "result of a transaction")
    table(ctx, R, f, rm, [Row("completed transaction is forgotten", ["$2"], kind="shrink", never=[("the transaction is committing", [V(st, "Committing")]), ("the transaction is preparing", [V(st, "Preparing")])],
        always=[("the outcome is delivered", [V(st, "Completed")])])], "transactions on result")
    f = co(ctx, "abort_transaction")
    table(ctx, R, f, place_events(f, "self.transactions"), [Row("aborted transaction is discarded", ["$2"], kind="shrink", always=[("abort is requested", [])])], "abort")
    f = co(ctx, "take_out_messages")
    vs = [cv(t) for _, t in ret_values(f)]
    ctx.check(vs and all(v == "take(self.out_messages)" for v in vs), R, f.entry_body.name, f"messages returned are {vs}", key=R + ":take")
    f = co(ctx, "make_progress")
    ev = place_events(f, "self.transactions") + [e for e in map_events(f, "self.transactions")] + place_events(f, "self.transactions[*].1")
    ctx.check(not ev, R, f.entry_body.name, "progress replaces or removes a transaction", key=R + ":progress")
    evs = place_events(f, "self.transactions[%].process_requests")
    ctx.check(not evs, R, f.entry_body.name, "progress adds or removes processes", key=R + ":progress2")

def flat_rets(f):
    """Values returned, at the states of the end node (one per value)."""
    out = []
    for p in f.ends():
        t = f.local_term(f.root, 0, f.env_of(p))
        for x in alts(t):
            out.append((p, x))
    return out
