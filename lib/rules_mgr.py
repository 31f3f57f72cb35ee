"""Transaction manager and result handles: C30..C34."""
from rlib import *
from rules_coord import both, once, exclusive

MG, MGT = "DefaultTabletTransactionManager", "TabletTransactionManager"
def mg(ctx, me, tr=MGT, ty=MG):
    return ctx.api(ty, tr, me)

def delegates(ctx, R, f, name, args, what, always=True):
    """The call happens exactly once on every completed path, with the arguments."""
    ev = call_events(f, name)
    ctx.need(ev, f"{what}: call of {name}")
    table(ctx, R, f, ev, [Row(f"call of {name}", args, always=[("always", [])] if always else [])], what)
    once(ctx, R, f, ev, f"{what}: {name}")
    return ev
def returned(ctx, R, f, pats, what):
    for p, t in ret_values(f):
        for x in alts(t):
            ctx.check(m(pats, cv(x)), R, f.entry_body.name, f"{what}: {cv(x)[:200]} is returned", key=f"{R}:{what}:returned")

# ---------------------------------------------------------------- C30
S = "self.core."
OPR, OPE = "$2.ExecuteTabletOpsResponse", "$2.ExecuteTabletOpsError"
REM = "remove(self.core.tablets_errors, %s.0)"
def in_routing(ctx):
    R = "responses-routed"
    f = mg(ctx, "process_in_message")
    vs = ["LoadTabletResponse", "StoreTabletResponse", "ExecuteTabletOpsResponse", "ExecuteTabletOpsError"]
    def no(*w):
        return [(f"the message is {v}", [V("$2", v)]) for v in vs if v not in w]
    data = call_events(f, "TabletDataCache::process_in_message")
    table(ctx, R, f, data, [
        Row("load response", [S + "data_cache", "TabletDataCacheInMessage::LoadResponse{0=$2.LoadTabletResponse.0, 1=$2.LoadTabletResponse.1, 2=$2.LoadTabletResponse.2}"], never=no("LoadTabletResponse"), always=[("a load response arrives", [V("$2", "LoadTabletResponse")])]),
        Row("store response", [S + "data_cache", "TabletDataCacheInMessage::StoreResponse{0=$2.StoreTabletResponse.0, 1=$2.StoreTabletResponse.1}"], never=no("StoreTabletResponse"), always=[("a store response arrives", [V("$2", "StoreTabletResponse")])])],
        "messages to the data cache")
    once(ctx, R, f, data, "delivery to the data cache")
    src = {OPR: OPR + ".2.tablet_results", OPE: (REM % OPE) + ".tablet_results"}
    lists = call_events(f, "TabletMetadataCache::process_in_message")
    execs = call_events(f, "TabletTransactionCoordinator::process_in_message")
    for ev, recv, msg, name, isit in ((lists, [S + "metadata_cache"], "TabletMetadataCacheInMessage::ListResponse", "list results", True),
                                      (execs, [S + "transaction_coordinator", S + "metadata_cache"], "TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse", "results of other operations", False)):
        ctx.need(ev, f"delivery of {name}")
        table(ctx, R, f, ev, [Row(f"{name} of {v.split('.')[-1]}", recv + [[f"{msg}{{0={v}.0, 1=new()}}", f"{msg}{{0={v}.0, 1=collect(%"]], never=[(f"the message is {w}", [V("$2", w)]) for w in vs if w != v.split(".")[-1]])
                              for v in src], name)
        for e in ev:
            t = e.args[-1]
            v = OPR if cv(t).startswith(msg + "{0=" + OPR) else OPE
            coll = dict(t[3])["1"] if t[0] == "agg" else t
            el = src[v] + "[*]"
            opr = el + ".op_result"
            elems(ctx, R, f, e.n, coll, [el], f"{name} ({v.split('.')[-1]})")
            sites = [p for p, _ in item_states(f, coll)]
            other = ["AddTablet", "CheckTablet", "RemoveTablet", "UpdateTablet"]
            good, bad = (["ListTablet"], other) if isit else (other, ["ListTablet"])
            ctx.need(sites, f"collection of {name}")
            r = live_from(f, None, [V(opr + "?", *bad), V(opr, "ok")])
            off = [p for p in sites if p in r]
            ctx.check(not off, R, showp(f, (off or sites)[0]), f"{name} include the result of another operation", key=f"{R}:{name}:kind")
            okk, why = foreach_states(f, sites, src[v], [V(opr, "ok"), V(opr + "?", *good)])
            ctx.check(okk, R, f.where(e.n), f"{name}: a result is dropped: {why}", key=f"{R}:{name}:dropped:{v.split('.')[-1]}")
            # the collected results are delivered
            cn = cv(coll)
            r = live_from(f, sites, [T(f"is_empty({cn})", False), REL(f"len({cn})", ">", "0")], avoid={x.p for x in ev})
            off = [p for p in f.ends() if p in r]
            ctx.check(not off, R, f.where(e.n), f"{name}: collected but not delivered", key=f"{R}:{name}:undelivered")
            r = live_from(f, None, [T(f"is_empty({cn})", True), REL(f"len({cn})", "=", "0")])
            ctx.check(e.p not in r, R, f.where(e.n), f"{name}: delivered although there are none", key=f"{R}:{name}:none")
        once(ctx, R, f, ev, f"delivery of {name}")

def failed_ops(ctx):
    """Operations without a result count as failed."""
    R = "failed-ops"
    f = mg(ctx, "process_in_message")
    er = (REM % OPR) + ".tablet_results"
    resp = OPR + ".2.tablet_results"
    idx = f"index({er})"
    beyond = [REL(idx, ">=", f"len({resp})"), V(f"get({resp}, {idx})", "no")]
    within = [REL(idx, "<", f"len({resp})"), V(f"get({resp}, {idx})", "ok")]
    ev = place_events(f, [resp, resp + "[%]"], ("grow", "write", "shrink"))
    table(ctx, R, f, ev, [Row("missing result", [er + "[*]"], kind="grow", target=resp, foreach=[("for each operation beyond the results", er, beyond)], never=[("the operation has a result", within)]),
                          Row("empty result", [lambda e, t: m(er + "[*]", cv(e.args[-1]))], kind="write", target=f"{resp}[*]", foreach=[("for each operation with an empty result", er, within + [V(f"{resp}[*].op_result", "no")])], never=[("the operation has a result", [V(f"{resp}[*].op_result", "ok")])])],
          "results of a response")
    # filled in before they are looked at
    first = [p for h in loops(f, resp) for p in f.bynode[h.id]]
    r = live_from(f, first, ())
    off = [e for e in ev if e.p in r]
    ctx.check(not off, R, f.where(off[0].n) if off else f.entry_body.name, "results are completed after they were looked at", key=f"{R}:late")
    sh = place_events(f, S + "tablets_errors", ("shrink",))
    table(ctx, R, f, sh, [Row(f"forgotten after {v.split('.')[-1]}", [v + ".0"], always=[("it arrives", [V("$2", v.split(".")[-1])])]) for v in (OPR, OPE)], "failure results of a request")
    # prepared with the request
    f = mg(ctx, "take_out_messages")
    failed = str(next(v[1] for v in ctx.prog.adt("TabletOpStatus")["variants"] if v[0] == "Failed"))
    for comp, src, var in (("TabletTransactionCoordinator", "transaction_coordinator", "ExecuteTabletOpsRequest"), ("TabletMetadataCache", "metadata_cache", "ListRequest")):
        X = f"{comp}::take_out_messages({S}{src})"
        ev = [e for e in place_events(f, S + "tablets_errors", ("grow",)) if cv(e.args[0]).startswith(X)]
        table(ctx, R, f, ev, [Row("failure results", [f"{X}[*].{var}.0", "TabletsResponse{status=%, tablet_results=%}"], foreach=[("for each request", X, [V("insert(%", "no")])])], f"failure results of requests of the {src}")
        for e in ev:
            t = e.args[-1]
            if t[0] != "agg":
                continue
            ops = f"{X}[*].{var}.1"
            coll = dict(t[3])["tablet_results"]
            kinds = ["ListTablet", "CheckTablet", "UpdateTablet", "AddTablet", "RemoveTablet"]
            sites = elem_sites(f, e.n, coll)
            ctx.need(sites, f"failure result of an operation ({src})")
            for nodes, v in sites:
                vv = [y for y in alts(v)]
                for y in vv:
                    ok = y[0] == "agg" and y[1].split("::")[-1] == "TabletOpResult"
                    d = dict(y[3]) if ok else {}
                    ok = ok and cv(d["table_name"]) == ops + "[*].table_name"
                    ctx.check(ok, R, f.where(e.n), f"failure result of an operation is {cv(y)[:200]}", key=f"{R}:{src}:result")
                    if not ok:
                        continue
                    st = cv(d["status"])
                    ctx.check(m(["%Status::Failed", failed], st), R, f.where(e.n), f"the failure result has status {st}", key=f"{R}:{src}:status")
                    for z in alts(d["op_result"]):
                        s = cv(z)
                        if opkind(z) == "ListTablet":
                            ctx.check(m(f"%ListTabletResult{{key_hash_from={ops}[*].op.ListTablet.0.key_hash_from, key_hash_to={ops}[*].op.ListTablet.0.key_hash_to, tablets=%}}%", s) and m(["new()", "default:ListTabletResult().tablets", "default:Vec()"], cv(list_tablets(z))), R, f.where(e.n), f"the failed list result is {s[:300]}", key=f"{R}:{src}:range")
            okk, why = foreach_states(f, [p for nodes, _ in sites for q in nodes for p in f.bynode[q.id]], ops)
            ctx.check(okk, R, f.where(e.n), f"an operation has no failure result: {why}", key=f"{R}:{src}:each")
            kind_agreement(ctx, R, f, sites, ops, kinds, src)
    ctx.need(place_events(f, S + "tablets_errors", ("grow",)), "failure results")

def kind_agreement(ctx, R, f, sites, ops, kinds, src):
    """Under 'the operation is of kind k' only results of kind k are built."""
    op = ops + "[*].op"
    hs = [h for h in loops(f, ops)]
    hd = [t for h in hs for _, t in loop_edges(f, h, ops)[0]]
    ends = {p for h in hs for p in f.bynode[h.id]}
    nodes = {q.id: q for qs, _ in sites for q in qs}
    for k in kinds:
        r = live_from(f, hd, [V(op, "ok"), V(op + "?", k)], avoid=ends)
        built = set()
        for q in nodes.values():
            for p in f.bynode[q.id]:
                if p in r:
                    v = f.desc(q.d["desc"], f.env_of(p)) if "desc" in q.d else f.argt(q, f.nargs(q) - 1, f.env_of(p))
                    for y in alts(v):
                        for z in alts(dict(y[3]).get("op_result", ("undef",))) if y[0] == "agg" else [y]:
                            built.add(opkind(z))
        ctx.check(built == {k}, R, f.entry_body.name, f"a failed {k} operation is answered with {sorted(map(str, built))} ({src})", key=f"{R}:{src}:kind:{k}")
def list_tablets(z):
    while z[0] == "agg" and "tablets" not in dict(z[3]) and z[3]:
        z = z[3][0][1]
    return dict(z[3]).get("tablets", ("undef",)) if z[0] == "agg" else z
def opkind(z):
    while z[0] == "agg" and z[2] in ("Some", "Ok") and z[3]:
        z = z[3][0][1]
    return z[2] if z[0] == "agg" else cv(z)[:80]

def out_routing(ctx):
    R = "requests-routed"
    f = mg(ctx, "take_out_messages")
    rows = []
    for comp, src, var, out in (("TabletTransactionCoordinator", "transaction_coordinator", "ExecuteTabletOpsRequest", "OutMessage::ExecuteTabletOpsRequest{0=%s.0, 1=default:ExecuteTabletOpsRequest(), 2=TabletsRequest{tablet_ops=%s.1}}"),
                                ("TabletMetadataCache", "metadata_cache", "ListRequest", "OutMessage::ExecuteTabletOpsRequest{0=%s.0, 1=default:ExecuteTabletOpsRequest(), 2=TabletsRequest{tablet_ops=%s.1}}"),
                                ("TabletDataCache", "data_cache", "LoadRequest", "OutMessage::LoadTabletRequest{0=%s.0, 1=%s.1}"),
                                ("TabletDataCache", "data_cache", "StoreRequest", "OutMessage::StoreTabletRequest{0=%s.0, 1=%s.1, 2=%s.2}")):
        X = f"{comp}::take_out_messages({S}{src})"
        el = f"{X}[*].{var}"
        n = out.count("%s")
        rows.append((X, Row(var, [out % ((el,) * n)]), var))
    ev = {}
    for p, t in ret_values(f):
        for x in alts(t):
            for nodes, v in elem_sites(f, f.nodes[f.pnodes[p][0]], x):
                for y in alts(v):
                    ev.setdefault(cv(y), set()).update(q.id for q in nodes)
            ctx.check(not shrinks_before(f, x, f.nodes[f.pnodes[p][0]]), R, f.entry_body.name, "messages are removed again", key=f"{R}:removed")
    for s in ev:
        hit = [r for X, r, v in rows if m(r.args[0], s)]
        ctx.check(len(hit) == 1, R, f.entry_body.name, f"the outgoing message {s[:300]} corresponds to no request of a component", key=f"{R}:unexpected")
    for X, r, v in rows:
        es = [i for s in ev for i in ev[s] if m(r.args[0], s)]
        ctx.check(bool(es), R, f.entry_body.name, f"requests {v} are not sent", key=f"{R}:{v}:missing")
        if not es:
            continue
        okk, why = foreach_states(f, [p for i in es for p in f.bynode[i]], X, [V(X + "[*]", v)])
        ctx.check(okk, R, f.where(f.nodes[es[0]]), f"a request {v} is not sent: {why}", key=f"{R}:{v}:dropped")
        ce = call_events(f, X.split("(")[0])
        once(ctx, R, f, ce, f"taking {v}")
        table(ctx, R, f, ce, [Row("requests are taken", [X.split("(")[1][:-1]], always=[("always", [])])], v)

# ---------------------------------------------------------------- C32
def lifecycle(ctx):
    R = "manager-delegates"
    f = mg(ctx, "init")
    delegates(ctx, R, f, "TabletDataCache::init", [S + "data_cache", None, "$3.data_cache_config"], "initialisation")
    delegates(ctx, R, f, "TabletMetadataCache::init", [S + "metadata_cache", None, "$3.metadata_cache_config"], "initialisation")
    delegates(ctx, R, f, "TabletTransactionCoordinator::init", [S + "transaction_coordinator"], "initialisation")
    f = mg(ctx, "make_progress")
    a = delegates(ctx, R, f, "TabletMetadataCache::make_progress", [S + "metadata_cache", "$2"], "progress")
    b = delegates(ctx, R, f, "TabletDataCache::make_progress", [S + "data_cache", "$2"], "progress")
    delegates(ctx, R, f, "TabletTransactionCoordinator::make_progress", [S + "transaction_coordinator", "$2", S + "metadata_cache", S + "data_cache"], "progress")
    TC = "TabletTransactionContext"
    f = mg(ctx, "resolve", TC)
    delegates(ctx, R, f, "TabletMetadataCache::resolve_tablets_with_handler", [S + "metadata_cache", "$2", "$3"], "resolving")
    f = mg(ctx, "start_transaction", TC)
    delegates(ctx, R, f, "TabletTransactionCoordinator::create_transaction", [S + "transaction_coordinator"], "starting a transaction")
    returned(ctx, R, f, ["DefaultTabletTransaction{transaction_id=TabletTransactionCoordinator::create_transaction(self.core.transaction_coordinator), transaction_outcome=None, core=self.core}"], "starting a transaction")
    D, DT = "DefaultTabletTransaction", "TabletTransaction"
    tx = lambda me, tr=DT: ctx.api(D, tr, me)
    C = S + "transaction_coordinator"
    ID = "self.transaction_id"
    delegates(ctx, R, tx("process"), "TabletTransactionCoordinator::process_transaction", [C, ID, "$2", "$3"], "processing")
    f = tx("has_pending_process")
    returned(ctx, R, f, [f"TabletTransactionCoordinator::has_transaction_pending_process({C}, {ID})"], "pending processing")
    f = tx("get_id")
    returned(ctx, R, f, [ID], "transaction id")
    f = tx("commit")
    delegates(ctx, R, f, "TabletTransactionCoordinator::commit_transaction", [C, ID], "commit")
    returned(ctx, R, f, ["self"], "commit")
    delegates(ctx, R, tx("abort"), "TabletTransactionCoordinator::abort_transaction", [C, ID], "abort")
    f = tx("check_result", "TabletTransactionCommit")
    O = "self.transaction_outcome"
    ev = call_events(f, "TabletTransactionCoordinator::check_transaction_result")
    table(ctx, R, f, ev, [Row("outcome of the transaction", [C, ID], never=[("it is known already", [V(O, "ok")])], always=[("it is not known yet", [V(O, "no")])])], "outcome")
    ws = place_events(f, O)
    table(ctx, R, f, ws, [Row("remembered outcome", [f"TabletTransactionCoordinator::check_transaction_result({C}, {ID})"], kind="write", always=[("it is not known yet", [V(O, "no")])], never=[("it is known already", [V(O, "ok")])]),
                          Row("kept", [O], kind="write", never=[("it is not known yet", [V(O, "no")])], min=0)], "remembered outcome")
    returned(ctx, R, f, [O, f"TabletTransactionCoordinator::check_transaction_result({C}, {ID})"], "outcome")

# ---------------------------------------------------------------- C33
def handles(ctx):
    R = "result-handle"
    f = ctx.flow(ctx.body(name="create_eventual_result"))
    # both ends share one core that holds nothing
    for p, t in ret_values(f):
        for x in alts(t):
            d = dict(x[3]) if x[0] == "agg" else {}
            ok = set(d) == {"0", "1"} and d["0"][0] == "agg" and d["1"][0] == "agg"
            ok = ok and d["0"][1].endswith("ResultHandle") and d["1"][1].endswith("ResultSource")
            a, b = (dict(d[k][3])["core"] for k in "01") if ok else (None, None)
            ctx.check(ok and a == b, R, f.entry_body.name, f"the handle and its source do not share their state: {cv(x)[:300]}", key=f"{R}:shared")
            ctx.check(ok and cv(a) == "ResultCore{result=None, error=None}", R, f.entry_body.name, f"a new result is {cv(a) if a else None}", key=f"{R}:fresh")
    f = ctx.api("ResultHandle", None, "check_result")
    res, err = "self.core.result", "self.core.error"
    cases = [([res], "a value", [V(res, "ok"), V(err, "no")]), (["Err{0=%s}" % err], "an error", [V(err, "ok"), V(res, "no")]), (["None"], "nothing", [V(res, "no"), V(err, "no")])]
    ctx.check(not place_events(f, "self.core.%"), R, f.entry_body.name, "checking a result changes it", key=f"{R}:check-changes")
    for pats, what, ass in cases:
        r = live_from(f, None, ass)
        seen = set()
        for p, t in ret_values(f):
            if p in r:
                for x in alts(t):
                    if f"{x[2]}" if x[0] == "agg" else True:
                        seen.add(cv(x))
        ctx.check(seen and all(m(pats, s) for s in seen), R, f.entry_body.name, f"with {what} set, the handle reports {sorted(seen)}", key=f"{R}:{what}")
    for me, mine, other in (("set_result", res, err), ("set_error", err, res)):
        f = ctx.api("ResultSource", None, me)
        ev = place_events(f, "self.core.%")
        table(ctx, R, f, ev, [Row("the value", ["$2"], kind="write", target=mine, always=[("nothing was set", [V(res, "no"), V(err, "no")])], never=[("a value was set", [V(res, "ok")]), ("an error was set", [V(err, "ok")])])], me)
    f = ctx.flow(ctx.body(name="create_result_from_error"))
    returned(ctx, R, f, ["ResultHandle{core=ResultCore{result=None, error=$1}}"], "a failed result")

def correlation_spaces(ctx):
    """The components number their requests from far apart starting points."""
    R = "correlation-spaces"
    f = ctx.flow(ctx.body(name="run_server", file="apps/tablet_cache/app/src/main.rs"))
    found = {}
    for n in f.nodes:
        if n.kind == "call" and n.id in f.reached and n.d["cal"] is not None:
            for i in range(f.nargs(n)):
                for p in f.bynode[n.id]:
                    for t in alts(f.argt(n, i, f.env_of(p))):
                        if t[0] == "agg" and short(t[1]) in ("DefaultTabletTransactionCoordinator", "DefaultTabletMetadataCache", "DefaultTabletDataCache"):
                            found[short(t[1])] = (n, cv(dict(t[3]).get("correlation_counter", ("undef",))))
    ctx.need(found, "components created by the tablet cache application", 3)
    xs = sorted((int(v) if v.isdigit() else -1, k) for k, (n, v) in found.items())
    ctx.check(xs[0][0] >= 0, R, "apps/tablet_cache/app/src/main.rs", f"a starting point is not a constant: {xs}", key=f"{R}:constant")
    for a, b in zip(xs, xs[1:]):
        ctx.check(b[0] - a[0] >= 1 << 32, R, f.where(found[b[1]][0]), f"{a[1]} and {b[1]} number their requests from {a[0]} and {b[0]}", key=f"{R}:overlap")
