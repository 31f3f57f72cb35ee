"""Key value store: C40..C43."""
from rlib import *
from rules_coord import fresh_id, both, once
from rules_mgr import delegates

C = "self.core."
P, W = C + "request_tracker.pending_requests", C + "request_tracker.waiting_resolution_requests"
TT, TX = C + "tablet_trackers", C + "transaction_trackers"
RQS = ["self.resolved_queries", "take(self.resolved_queries)"]
Q = "self.resolved_queries[*]"
CNT = C + "table_accessor.query_counter"
ID = [CNT, f"(1 Add {CNT})"]
QRY = [f"TableQuery{{query_id={i}, table_name={C}table_accessor.table_name, key_hashes=new()}}" for i in ID]
H = "cbarg%[*]"
TR = f"{TT}[{H}.1.metadata.tablet_id]"
WP = f"{TR}.waiting_processing_requests"
RQ = f"{WP}[{H}.0.query_id]"
DIC = f"Message::decode({H}.1.contents.data).dictionary"
TRK = f"{TX}[*].1"
OUT = f"TabletTransactionCommit::check_result({TRK}.waiting_commit)"
def kv(ctx, me):
    return ctx.api("SimpleKeyValueStore", "KeyValueStore", me)
def ps(evs):
    return [e.p for e in evs]

def whole(ctx, R, f, place, transfers, what):
    """Nothing is taken out of the list before it is handed over."""
    ev = [e for e in place_events(f, place) if e.kind in ("shrink", "write") and not (e.n.kind == "call" and e.n.d["cal"] is not None and e.n.d["cal"].m in ("take", "append", "replace") or e.n.kind == "call" and e.n.d["cal"].m == "drain" and all("RangeFull" in cv(a) for a in e.args))]
    heads = {p for h in loops(f, TX) for p in f.bynode[h.id]}
    r = f.reach([e.p for e in ev], avoid=heads) if ev else set()
    own = {e.p for e in ev}
    off = [e for e in transfers if e.p in r and e.p not in own]
    ctx.check(not off, R, f.where(ev[0].n) if off else f.entry_body.name, f"{what} are removed before they are handed over", key=f"{R}:whole:{what}")

# ---------------------------------------------------------------- C40
def responses_committed(ctx):
    R = "responses-committed"
    f = kv(ctx, "make_progress")
    ev, _, lost = arrivals(f, C + "responses")
    ctx.check(not lost, R, f.entry_body.name, "responses that were set aside are dropped", key=f"{R}:set-aside")
    table(ctx, R, f, ev, [Row("responses of a transaction", [[TRK + ".responses", TRK + ".responses[*]", f"take({TRK}.responses)"]], kind="grow",
                              never=[("no commit is awaited", [V(TRK + ".waiting_commit", "no")]), ("the outcome is not known", [V(OUT, "no")]), ("the transaction failed", [V(OUT + "?", "Failed")])],
                              foreach=[("for each succeeded transaction", TX, [V(TRK + ".waiting_commit", "ok"), V(OUT, "ok"), V(OUT + "?", "Succeeded")])])], "responses")
    whole(ctx, R, f, TRK + ".responses", ev, "responses of a transaction")
    # requests of a failed transaction are retried, those of a succeeded one are not
    fl = [e for e in place_events(f, "new()", ("grow",)) if m([TRK + ".requests", TRK + ".requests[*]", f"take({TRK}.requests)"], cv(e.args[-1]))]
    table(ctx, R, f, fl, [Row("requests of a failed transaction", None, never=[("the transaction succeeded", [V(OUT + "?", "Succeeded")]), ("the outcome is not known", [V(OUT, "no")]), ("no commit is awaited", [V(TRK + ".waiting_commit", "no")])],
                              foreach=[("for each failed transaction", TX, [V(TRK + ".waiting_commit", "ok"), V(OUT, "ok"), V(OUT + "?", "Failed")])])], "requests to retry")
    whole(ctx, R, f, TRK + ".requests", fl, "requests of a transaction")
    f = kv(ctx, "take_responses")
    ev = place_events(f, C + "responses")
    ctx.check(all(e.kind == "shrink" for e in ev) and ev, R, f.entry_body.name, "responses are added when they are taken", key=f"{R}:take")
    for p, t in ret_values(f):
        ctx.check(m([f"take({C}responses)", f"collect(drain({C}responses%", f"split_off({C}responses%"], cv(t)), R, f.entry_body.name, f"{cv(t)} is returned as the responses", key=f"{R}:returned")
    # transactions are committed once all their processing is done
    f = kv(ctx, "make_progress")
    cm = call_events(f, "TabletTransaction::commit")
    pend = [f"TabletTransaction::has_pending_process({TRK}.transaction)", f"TabletTransaction::has_pending_process(take({TRK}.transaction))"]
    table(ctx, R, f, cm, [Row("commit", [[f"take({TRK}.transaction)", TRK + ".transaction"]], never=[("processing is pending", [T(pend, True)]), ("it is committed already", [V(TRK + ".waiting_commit", "ok")])],
                              foreach=[("for each processed transaction", TX, [T(pend, False), V(TRK + ".waiting_commit", "no"), V([TRK + ".transaction", f"take({TRK}.transaction)"], "ok")])])], "commits")
    ws = place_events(f, TRK + ".waiting_commit")
    table(ctx, R, f, ws, [Row("awaited commit", [[f"TabletTransaction::commit(take({TRK}.transaction))", f"TabletTransaction::commit({TRK}.transaction)"]], kind="write")], "awaited commits")
    both(ctx, R, f, ps(cm), ps(ws), "a commit is awaited")

# ---------------------------------------------------------------- C41
def requests_kept(ctx):
    R = "requests-kept"
    f = kv(ctx, "process_request")
    ev = place_events(f, "self.%")
    table(ctx, R, f, ev, [Row("new request", ["$2"], kind="grow", target=P, always=[("always", [])])], "request")
    once(ctx, R, f, ev, "recording a request")
    f = kv(ctx, "make_progress")
    # pending -> waiting for resolution
    minp = C + "request_tracker.min_pending"
    less, enough = REL(f"len({P})", "<", minp), REL(f"len({P})", ">=", minp)
    ev = place_events(f, P)
    table(ctx, R, f, ev, [Row("failed request", ["new()[*]", ], kind="grow"),
                          Row("requests to resolve", None, kind="shrink", never=[("there are too few", [less])], always=[("there are enough", [enough])])], "pending requests")
    retry = [e for e in ev if e.kind == "grow"]
    taken = [e for e in ev if e.kind == "shrink"]
    wait = place_events(f, W)
    table(ctx, R, f, wait, [Row("requests to resolve", [ID, f"take({P})"], kind="grow"),
                            Row("resolved requests", [Q + ".0.query_id"], kind="shrink"),
                            Row("unresolved requests", [Q + ".0.query_id", ["collect(%).1", "new()", "%.1"]], kind="grow")], "requests waiting for resolution")
    both(ctx, R, f, ps(taken), [e.p for e in wait if e.kind == "grow" and m(ID, cv(e.args[0]))], "pending requests wait for resolution")
    rs = call_events(f, "TabletTransactionContext::resolve")
    table(ctx, R, f, rs, [Row("resolution", ["$3", ["new()", "[TableQuery{%}]"]])], "resolution")
    queries(ctx, R, f, rs, taken, "resolve", "resolution", P, "keys to resolve")
    # resolved -> tablet
    app = place_events(f, f"{TT}[{Q}.1.tablet_id].pending_requests")
    mine = ["collect(%).0", "new()", "%.0", "{new()[*] | remove(%)[*]}", "{default%[*] | remove(%)[*]}", "remove(%)[*]"]
    single = bool(app) and all(one(e.args[-1]) or empty(f, e.args[-1]) for e in app)
    table(ctx, R, f, app, [Row("resolved requests", [mine + ["new()[*]"]], kind="grow", foreach=[] if single else [("for each resolved query", RQS, [])])], "requests of a tablet")
    ctx.need([q for e in app for q in sel(ctx, R, f, e, e.args[-1], True)], "selection of resolved requests")
    left = [e for e in wait if e.kind == "grow" and len(e.args) > 1 and not m(ID, cv(e.args[0]))]
    names = sorted({f"is_empty({cv(y)})" for e in left for y in alts(e.args[-1])} | {f"is_empty({cv(e.args[-1])})" for e in left})
    for e in left:
        nodes = sel(ctx, R, f, e, e.args[-1], False)
        r = live_from(f, [p for q in nodes for p in f.bynode[q.id]], [T(names, False)], avoid=set(ps([z for z in wait if z.kind == "grow"])))
        off = [p for h in loops(f, RQS) for p in f.bynode[h.id] if p in r]
        ctx.check(not off, R, f.where(e.n), "requests that are not resolved are dropped", key=f"{R}:leftover")
    tn = place_events(f, TT, ("grow", "write"))
    table(ctx, R, f, tn, [Row("new tablet", [Q + ".1.tablet_id", f"TabletTracker{{min_pending={C}config.min_pending_before_process, has_transaction=false, pending_requests=new(), waiting_processing_requests=new()}}"])], "tablets")
    # pending on the tablet -> processing
    T_ = TT + "[*].1"
    sh = place_events(f, T_ + ".pending_requests")
    few = [("there are too few", [REL(f"len({T_}.pending_requests)", "<", T_ + ".min_pending")]), ("the tablet is in a transaction", [T(T_ + ".has_transaction", True)])]
    go = [REL(f"len({T_}.pending_requests)", ">=", T_ + ".min_pending"), T(T_ + ".has_transaction", False)]
    table(ctx, R, f, sh, [Row("requests to process", None, kind="shrink", never=few, foreach=[("for each tablet with enough requests", TT, go)])], "requests of a tablet to process")
    wp = place_events(f, T_ + ".waiting_processing_requests")
    table(ctx, R, f, wp, [Row("requests to process", [ID, f"take({T_}.pending_requests)"], kind="grow", never=few)], "requests being processed")
    both(ctx, R, f, ps(sh), ps(wp), "requests of a tablet are processed")
    ht = place_events(f, T_ + ".has_transaction")
    table(ctx, R, f, ht, [Row("mark of a transaction", ["true"], kind="write", never=few, foreach=[("for each tablet with enough requests", TT, go)])], "mark of a transaction")
    pr = call_events(f, "TabletTransaction::process")
    ST = "TabletTransactionContext::start_transaction($3)"
    table(ctx, R, f, pr, [Row("processing", [ST, ["new()", "[TableQuery{%}]"]])], "processing")
    once(ctx, R, f, pr, "processing")
    tx = place_events(f, TX, ("grow", "write"))
    table(ctx, R, f, tx, [Row("transaction", [f"TabletTransaction::get_id({ST})", f"TransactionTracker{{tablet_ids=new(), requests=new(), responses=new(), transaction={ST}, waiting_commit=None}}"])], "transactions")
    both(ctx, R, f, ps(pr), ps(tx), "a started transaction is tracked")
    queries(ctx, R, f, pr, sh, "process", "processing", T_ + ".pending_requests", "keys to process")
    for e in tx:
        t = e.args[-1]
        if t[0] == "agg":
            ids = dict(t[3])["tablet_ids"]
            elems(ctx, R, f, e.n, ids, [TT + "[*].0"], "tablets of a transaction")
            both(ctx, R, f, ps(sh), [p for nodes, _ in elem_sites(f, e.n, ids) for q in nodes for p in f.bynode[q.id]], "a tablet being processed belongs to the transaction")
    # the transaction is over
    over = [V(TRK + ".waiting_commit", "ok"), V(OUT, "ok")]
    aff = [e for e in place_events(f, "new()", ("grow",)) if m([TRK + ".tablet_ids", TRK + ".tablet_ids[*]", f"take({TRK}.tablet_ids)"], cv(e.args[-1]))]
    table(ctx, R, f, aff, [Row("tablets of a finished transaction", None, never=[("its outcome is not known", [V(OUT, "no")])], foreach=[("for each finished transaction", TX, over)])], "tablets of finished transactions")
    whole(ctx, R, f, TRK + ".tablet_ids", aff, "tablets of a transaction")
    done = [e for e in place_events(f, "new()", ("grow",)) if cv(e.args[-1]) == TX + "[*].0"]
    rm = [e for e in place_events(f, TX) if e.kind == "shrink"]
    direct = [e for e in rm if e.args and cv(e.args[0]) == TX + "[*].0"]
    rm = [e for e in rm if e not in direct]
    table(ctx, R, f, done + direct, [Row("finished transaction", None, never=[("its outcome is not known", [V(OUT, "no")])], foreach=[("for each finished transaction", TX, over)])], "finished transactions")
    table(ctx, R, f, rm, [Row("finished transaction", ["new()[*]"], min=0 if direct else 1)], "forgotten transactions")
    X = TT + "[new()[*]]"
    hx = place_events(f, X + ".has_transaction")
    table(ctx, R, f, hx, [Row("tablet is free again", ["false"], kind="write")], "tablets of finished transactions")
    forget = [("finished transactions are not forgotten", rm, [])] if not direct or done else []
    for what, evs, known in [("the tablets of a finished transaction stay blocked", hx, [V(f"get({TT}, new()[*])", "ok")]), ("failed requests are not retried", retry, [])] + forget:
        heads = [h for h in loops(f, "new()") if set(ps(evs)) & f.reach([t for _, t in loop_edges(f, h, "new()")[0]], avoid=set(f.bynode[h.id]))]
        okk, why = foreach_states(f, ps(evs), "new()", known, heads=heads)
        ctx.check(okk, R, f.where(evs[0].n) if evs else f.entry_body.name, f"{what}: {why}", key=f"{R}:{what}")
    # requests left over are retried
    un = place_events(f, X + ".waiting_processing_requests")
    XW = X + ".waiting_processing_requests"
    WL = [XW, f"take({XW})", f"drain({XW})", f"into_values(take({XW}))", f"into_values({XW})"]
    lo = [e for e in place_events(f, "new()", ("grow",)) if m([f"%{XW}{b}[*].1{i}" for b in ("", ")") for i in ("", "[*]")], cv(e.args[-1]))]
    table(ctx, R, f, lo, [Row("left over requests", None, foreach=[("for each query", WL, [])])], "requests left over")
    both(ctx, R, f, ps(hx), ps(un), "requests left over are looked at when the transaction ends")
    # retried are both lists, and nothing else
    srcs = set()
    for e in retry:
        for y in alts(e.args[-1]):
            if y[0] == "pay" and y[1][0] == "next":
                srcs |= {cv(v) for _, v in elem_sites(f, e.n, y[1][1])}
    failed, left = ["%.requests", "%.requests[*]", f"take({TRK}.requests)%"], ["%waiting_processing_requests%"]
    ctx.need(retry, "requests put back to be retried")
    ctx.check(all(m(failed + left, s) for s in srcs), R, f.where(retry[0].n), f"the requests to retry are {sorted(srcs)}", key=f"{R}:retry-source")
    for pat, what in ((failed, "requests of failed transactions"), (left, "requests left unprocessed")):
        ctx.check(any(m(pat, s) for s in srcs), R, f.where(retry[0].n), f"{what} are not among the requests to retry: {sorted(srcs)}", key=f"{R}:retry-source:{what}")
    # only one of the ways a tracker's requests leave
    fresh_id(ctx, R, f, CNT, [(e, e.args[0]) for e in wp + [w for w in wait if w.kind == "grow" and m(ID, cv(w.args[0]))]], "query id")

def one(coll):
    return all(y[0] == "pay" and y[1][0] == "next" for y in alts(coll))
def empty(f, coll):
    return all(is_local_coll(x) and never_filled(f, x) for x in alts(coll))
def queries(ctx, R, f, evs, taken, verb, noun, coll, keys):
    """The requests taken out of the collection are in the queries made."""
    evs = [e for e in evs if not empty(f, e.args[1])]
    sites = []
    for e in evs:
        elems(ctx, R, f, e.n, e.args[1], [QRY], f"queries to {verb}")
        sites += [p for nodes, _ in elem_sites(f, e.n, e.args[1]) for q in nodes or [e.n] for p in f.bynode[q.id]]
        hash_cover(ctx, R, f, e, coll, keys)
    both(ctx, R, f, ps(taken), sites, f"requests taken for {noun} are in the query")
    r = live_from(f, sites, [T("is_empty(new())", False), REL("len(new())", ">", "0")], avoid=set(ps(evs)))
    off = [p for p in f.ends() if p in r]
    ctx.check(evs and not off, R, f.where(evs[0].n) if evs else f.entry_body.name, f"a query is not {verb}{'d' if verb[-1] == 'e' else 'ed'}", key=f"{R}:un{verb}")

def sel(ctx, R, f, e, coll, val):
    """The collection holds the requests whose hash the query covers (or not)."""
    part = "covered" if val else "left over"
    X = f"remove({W}, {Q}.0.query_id)"
    if empty(f, coll):
        return []
    sites = [([e.n], y) for y in alts(coll)] if one(coll) else elem_sites(f, e.n, coll)
    for nodes, v in sites:
        ctx.check(bool(nodes) and m([X + "[*]", "new()[*]", "default[*]"], cv(v)), R, f.where(e.n), f"the requests {part} are {cv(v)[:200]}", key=f"{R}:selection-of:{part}")
    items = {q.id: q for nodes, _ in sites for q in nodes}.values()
    ctx.need(items, "selection of requests")
    cov = f"contains({Q}.0.key_hashes, hash_of(%"
    r = live_from(f, None, [T(cov, not val)])
    off = [p for q in items for p in f.bynode[q.id] if p in r]
    ctx.check(not off, R, f.where(e.n), "requests are selected although the query %s their key" % ("does not cover" if val else "covers"), key=f"{R}:selection:{part}")
    okk, why = foreach_states(f, [p for q in items for p in f.bynode[q.id]], X, [T(cov, val)])
    ctx.check(okk, R, f.where(e.n), f"a request {part} is dropped: {why}", key=f"{R}:selection-each:{part}")
    for p, o in enumerate(f.psucc):
        for t, fs in o or []:
            for k, v in fs:
                if k[0] == "true" and m(cov, ck(k[1])):
                    ctx.check(m([f"contains({Q}.0.key_hashes, hash_of(%.Put.1.key))", f"contains({Q}.0.key_hashes, hash_of(%.Get.1.key))", f"contains({Q}.0.key_hashes, hash_of({{%.Put.1.key}}))", f"contains({Q}.0.key_hashes, hash_of({{%.Get.1.key}}))"], ck(k[1])), R, showp(f, p), f"requests are selected by {ck(k[1])[:200]}", key=f"{R}:selected-by")
    return items

def hash_cover(ctx, R, f, e, coll, what):
    for x in alts(e.args[1]):
        for nodes, v in elem_sites(f, e.n, x):
            for y in alts(v):
                if y[0] != "agg":
                    continue
                hs = dict(y[3]).get("key_hashes")
                vals, hn = set(), []
                for h in alts(hs):
                    for ns, w in elem_sites(f, e.n, h):
                        for z in alts(w):
                            if z[0] == "pay" and z[1][0] == "next":
                                for n3, w3 in elem_sites(f, e.n, z[1][1]):
                                    vals |= {cv(q) for q in alts(w3)}
                                    hn += n3
                            else:
                                vals |= {f"hash_of({cv(q)})" for q in alts(z[2][0])} if z[0] == "call" and z[1] == "hash_of" and len(z[2]) == 1 else {cv(z)}
                                hn += ns
                want = {f"hash_of({coll}[*].{k}.1.key)" for k in ("Put", "Get")}
                ctx.check(vals == want, R, f.where(e.n), f"{what}: the hashes are {sorted(vals)}", key=f"{R}:{what}:hash")
                okk, why = foreach_states(f, [p for q in hn for p in f.bynode[q.id]], coll)
                ctx.check(okk, R, f.where(e.n), f"{what}: a request is left out: {why}", key=f"{R}:{what}:cover")

# ---------------------------------------------------------------- C42
def key_semantics(ctx):
    R = "key-value-semantics"
    f = kv(ctx, "make_progress")
    put, get = V(RQ + "[*]", "Put"), V(RQ + "[*]", "Get")
    cov = lambda k: f"contains({H}.0.key_hashes, hash_of({RQ}[*].{k}.1.key))"
    ins = place_events(f, DIC)
    table(ctx, R, f, ins, [Row("put", [RQ + "[*].Put.1.key", RQ + "[*].Put.1.value"], kind="grow", never=[("the request is a get", [get]), ("the tablet does not hold the key", [T(cov("Put"), False)])],
                               foreach=[("for each put to the tablet", RQ, [put, T(cov("Put"), True)])])], "changes of the contents")
    res = [e for e in place_events(f, "new()", ("grow",)) if cv(e.args[-1]).startswith("(" + TT)]
    val, g = f"{DIC}[{RQ}[*].Get.1.key]", f"get({DIC}, {RQ}[*].Get.1.key)"
    ans = lambda k: f"({RQ}[*], KeyValueResponse::{k}{{0={RQ}[*].{k}.0, 1=%"
    table(ctx, R, f, res, [Row("answer to a put", [ans("Put")], never=[("the request is a get", [get]), ("the tablet does not hold the key", [T(cov("Put"), False)])], foreach=[("for each put to the tablet", RQ, [put, T(cov("Put"), True)])]),
                           Row("answer to a get", [ans("Get")], never=[("the request is a put", [put]), ("the tablet does not hold the key", [T(cov("Get"), False)])], foreach=[("for each get from the tablet", RQ, [get, T(cov("Get"), True)])])], "answers")
    defs = [(n, p, f.aggt(n, f.env_of(p))) for n in f.aggs("GetKeyResponse") for p in f.bynode[n.id]]
    sites = {}
    for n, p, t in defs:
        for fld, v in t[3]:
            sites.setdefault(fld, []).append((n, p, v))
    for n in f.writes(adt="GetKeyResponse"):
        pl = n.d["place"] if n.kind == "assign" else n.d["dest"]
        for p in f.bynode[n.id]:
            sites.setdefault(pl[-1][1:].split("|")[0], []).append((n, p, f.wval(n, f.env_of(p))))
    def body(e):
        t = e.args[-1]
        for y in alts(t):
            r = dict(y[3]).get("1") if y[0] == "agg" else None
            for z in alts(r) if r is not None else ():
                if z[0] == "agg" and z[3]:
                    for w in alts(dict(z[3])["1"]):
                        if w[0] == "call" and w[1] == "default:GetKeyResponse":
                            # filled in field by field
                            w = ("agg", "GetKeyResponse", "", tuple((k, flow.mk_phi([flow.mk_fld(w, k)] + [v for _, _, v in sites.get(k, ())])) for k in ("existed", "value")))
                        yield w
    known, unknown = [V(g, "ok"), T(f"contains%({DIC}, {RQ}[*].Get.1.key)", True)], [V(g, "no"), T(f"contains%({DIC}, {RQ}[*].Get.1.key)", False)]
    WK = lambda k: [f"is_some({DIC}[{RQ}[*].{k}.1.key])", f"contains%({DIC}, {RQ}[*].{k}.1.key)"]
    absent = ["new()", "Bytes::new()", "default%", val]
    rows = {"PutKeyResponse": {"existed": (["is_some(insert(%s, %s[*].Put.1.key, %s[*].Put.1.value))" % (DIC, RQ, RQ)] + WK("Put"), ["true"], ["false"])},
            "GetKeyResponse": {"existed": (WK("Get"), ["true"], ["false", "default:GetKeyResponse().existed"]), "value": ([], [val], absent[:3])}}
    inserted = f.reach(ps(ins), avoid={p for h in loops(f, RQ) for p in f.bynode[h.id]}, skip_start=True)
    for e in res:
        for b in body(e):
            kind = short(b[1]) if b[0] == "agg" else "?"
            ctx.check(kind in rows, R, f.where(e.n), f"an answer is {cv(b)[:200]}", key=f"{R}:answer-kind")
            for fld, v in (b[3] if kind in rows else ()):
                sure, yes, no = rows[kind].get(fld, ([], [], []))
                for w in alts(v):
                    ctx.check(m(sure + yes + no, cv(w)), R, f.where(e.n), f"the {fld} of a {kind} is {cv(w)[:200]}", key=f"{R}:answer:{kind}:{fld}")
                if kind == "PutKeyResponse":
                    ctx.check(all(m(sure, cv(w)) for w in alts(v)), R, f.where(e.n), f"whether a key that is put existed is {cv(v)[:200]}", key=f"{R}:put-existed")
    # a key is looked up before it is replaced
    for n in f.calls():
        if n.d["cal"].m in ("contains_key", "get", "contains") and any(p in inserted for p in f.bynode[n.id]) and any(cv(f.argt(n, 0, f.env_of(p))) == DIC or m(DIC, cv(f.argt(n, 0, f.env_of(p)))) for p in f.bynode[n.id]):
            ctx.bad(R, f.where(n), "whether a key existed is looked up after it was put", key=f"{R}:put-existed-late")
    # what a get answers, by what the contents hold
    for e in res:
        for b in body(e):
            if b[0] != "agg" or short(b[1]) != "GetKeyResponse":
                continue
            for fld, v in b[3]:
                sure, yes, no = rows["GetKeyResponse"].get(fld, ([], [], []))
                for what, ass, want in (("known", known, sure + yes), ("unknown", unknown, sure + no)):
                    r = live_from(f, None, ass)
                    if e.p not in r:
                        continue
                    got = {cv(w) for w in alts(v)}
                    if not all(m(want, x) for x in got):
                        # only the values that are given under this condition
                        here = [(p, {cv(w) for w in alts(u)}) for n, p, u in sites.get(fld, ()) if p in r]
                        wrong = [x for p, xs in here for x in xs if not m(want, x)]
                        unset = [x for x in got if x.startswith("default:GetKeyResponse")]
                        if not wrong and unset and not m(want, unset[0]) and e.p in live_from(f, None, ass, avoid={p for p, _ in here}):
                            wrong = unset
                        if wrong or not any(m(want, x) for x in got):
                            ctx.bad(R, f.where(e.n), f"a get answers {fld}={sorted(wrong or got)[:3]} although the key is {what}", key=f"{R}:get-{what}:{fld}")
                            continue
                    ctx.ok(R, f"{fld} of a get when the key is {what}")
    keep, _, lost = arrivals(f, RQ)
    ctx.check(not lost, R, f.entry_body.name, "requests that were set aside are dropped", key=f"{R}:set-aside")
    table(ctx, R, f, keep, [Row("request to another tablet", [RQ + "[*]"], kind="grow", never=[("the tablet holds the key", [T(f"contains({H}.0.key_hashes, %", True)])], foreach=[("for each request to another tablet", RQ, [T(f"contains({H}.0.key_hashes, %", False)])]),
                            Row("requests of the tablet", None, kind="shrink", min=0)], "requests being processed")
    # new contents of the tablet
    up, di = place_events(f, f"{H}.1.updated_contents"), place_events(f, f"{H}.1.is_dirty")
    table(ctx, R, f, up, [Row("new contents", [f"Message::encode_to_vec({DIC[:-11]})"], kind="write")], "new contents")
    table(ctx, R, f, di, [Row("changed", ["true"], kind="write")], "mark of new contents")
    both(ctx, R, f, ps(up), ps(di), "new contents are marked")
    r = live_from(f, None, (), avoid=set(ps(ins)))
    off = [e for e in up if e.p in r]
    ctx.check(not off, R, f.where(up[0].n) if up else f.entry_body.name, "the tablet gets new contents although nothing was put", key=f"{R}:no-put")
    stop = {p for h in loops(f, "cbarg%") for p in f.bynode[h.id]} | set(f.ends())
    okk = not (stop & live_from(f, ps(ins), (), avoid=set(ps(up)), extra=lambda x, y, fs: x in stop))
    ctx.check(okk, R, f.where(ins[0].n) if ins else f.entry_body.name, "a put does not reach the contents of the tablet", key=f"{R}:put-lost")
    # recorded with the transaction
    for fld, k in (("requests", "0"), ("responses", "1")):
        ev = place_events(f, f"{TX}[cbarg%].{fld}")
        table(ctx, R, f, ev, [Row(fld, [["new()[*]." + k]], kind="grow")], f"{fld} of a transaction")
        heads = [h for h in loops(f, "new()") if set(ps(ev)) & f.reach([t for _, t in loop_edges(f, h, "new()")[0]], avoid=set(f.bynode[h.id]))]
        okk, why = foreach_states(f, ps(ev), "new()", heads=heads) if heads else (False, "no loop")
        ctx.check(okk, R, f.where(ev[0].n) if ev else f.entry_body.name, f"{fld} of a transaction are dropped: {why}", key=f"{R}:{fld}:dropped")
    okk, why = foreach_states(f, [p for h in loops(f, RQ) for p in f.bynode[h.id]], "cbarg%", [V(f"get({TT}, {H}.1.metadata.tablet_id)", "ok"), V(f"get({WP}, {H}.0.query_id)", "ok")])
    ctx.check(okk, R, f.entry_body.name, f"requests of a processed tablet are skipped: {why}", key=f"{R}:processed")

# ---------------------------------------------------------------- C43
def store_config(ctx):
    R = "store-config"
    f = kv(ctx, "init")
    ev = place_events(f, C + "%")
    table(ctx, R, f, ev, [Row("logger", ["$2"], target=C + "logger", min=0), Row("table", ["TableAccessor{table_name=$3.table_name, query_counter=0}"], kind="write", target=C + "table_accessor", always=[("always", [])]),
                          Row("requests", [[f"RequestTracker{{min_pending=$3.min_pending_before_resolve, pending_requests={a}, waiting_resolution_requests={b}}}" for a in ("new()", "default:RequestTracker().pending_requests") for b in ("new()", "default:RequestTracker().waiting_resolution_requests")]], kind="write", target=C + "request_tracker", always=[("always", [])]),
                          Row("configuration", ["$3"], kind="write", target=C + "config", always=[("always", [])])], "configuration")
