"""Tablet data cache: C10..C15."""
import re
from rlib import *
from rules_coord import fresh_id, both, once

D, DT = "DefaultTabletDataCache", "TabletDataCache"
NI = ("create_eventual_result", "set_result", "set_error")
def da(ctx, me):
    return ctx.api(D, DT, me, noinline=NI)
EN = "self.tablet_cache_entries"
STATES = ["Load", "Store", "Cache", "Error"]

# ---------------------------------------------------------------- C10
def written_metadata(ctx):
    f = da(ctx, "store_tablets")
    R = "written-metadata"
    ser = "TabletDataSerializer::serialize(self.tablet_serializer, $2[*].1)"
    M = "$2[*].0."
    hash_ = [f"Digest::digest({ser})", M + "blob_hash"]
    ws = {}
    for fld, val in (("tablet_version", f"({M}tablet_version Add 1)"), ("blob_size", [f"len({ser})", f"cast(len({ser}))"]), ("blob_hash", f"%digest({ser})"),
                     ("blob_uri", [f"format(%[{M}tablet_id, {v}, Engine::encode(%, {h})])" for v in (M + "tablet_version", f"({M}tablet_version Add 1)") for h in (M + "blob_hash", "%digest(" + ser + ")")])):
        ev = place_events(f, M + fld)
        table(ctx, R, f, ev, [Row(fld, [val], foreach=[("for each stored tablet", "$2", [V(ser, "ok")], [V(ser, "ok")])])], "metadata of a stored tablet")
        ws[fld] = {e.p for e in ev}
    # computed from the new version and hash, before anything uses it
    first = None
    for h in loops(f, "$2"):
        ok, no = loop_edges(f, h, "$2")
        r = f.reach([t for _, t in ok], avoid=set(f.bynode[h.id]))
        if ws["blob_uri"] & r:
            hp = set(f.bynode[h.id])
            uris = [e for e in place_events(f, M + "blob_uri")]
            late = sums_after(f, M + "tablet_version", ws["tablet_version"], hp)
            ctx.check(not late, R, f.where(late[0]) if late else f.entry_body.name, "the new version is counted twice", key=f"{R}:version-twice")
            for a in ("tablet_version", "blob_hash"):
                # a uri formed from the values before they are stored needs no order
                if all(not re.search(re.escape(M + a) + r"(?! Add 1\))", cv(e.args[-1])) for e in uris):
                    continue
                r = f.reach([t for _, t in ok], avoid=hp | ws[a])
                ctx.check(not (ws["blob_uri"] & r), R, f.entry_body.name, f"the uri is formed before the new {a} is known", key=f"{R}:uri-before:{a}")
            first = h
    ctx.check(first is not None, R, f.entry_body.name, "no loop prepares the metadata of the tablets", key=R + ":loop")
    # once per tablet
    if first is not None:
        hp = set(f.bynode[first.id])
        for fld, ps in ws.items():
            r = f.reach(list(ps), avoid=hp, skip_start=True)
            ctx.check(not (ps & r), R, f.entry_body.name, f"{fld} is changed twice for one tablet", key=f"{R}:twice:{fld}")
    # requests only once all tablets are prepared
    msg = place_events(f, "self.out_messages", ("grow",)) + place_events(f, EN, ("grow",)) + place_events(f, "self.tablet_operations", ("grow",))
    ctx.need(msg, "store requests")
    okk, off = forall_states(f, [e.p for e in msg], "$2", [V(ser, "no")])
    ctx.check(okk, R, f.where(msg[0].n), "storing starts although a tablet could not be serialised", key=R + ":partial")
    # a failed preparation is reported
    evs = [Ev(f, f.nodes[f.pnodes[p][0]], p, "ret", "result", [t]) for p, t in flat(f)]
    table(ctx, R, f, evs, [Row("failure to serialise", ["ResultHandle{core=%{result=None, error=TabletDataStorageStatus::Failed}%"]),
                           Row("eventual result", ["create_eventual_result().0"])], "result of storing")
    ps = [e.p for e in evs if cv(e.args[0]).startswith("create_eventual")]
    okk, off = forall_states(f, ps, "$2", [V(ser, "no")])
    ctx.check(okk, R, f.entry_body.name, "a tablet that could not be serialised does not fail the batch", key=R + ":failed")

def flat(f):
    return [(p, x) for p in f.ends() for x in alts(f.local_term(f.root, 0, f.env_of(p)))]

# ---------------------------------------------------------------- C11 / C12
class Bt:
    """The three places where batches are resolved."""
    def __init__(self, f, B, E, loop):
        self.f, self.B, self.E, self.loop = f, B, E, loop
def batches(ctx):
    return [Bt(da(ctx, "load_tablets"), "@TabletBatch", EN + "[%]", None), Bt(da(ctx, "store_tablets"), "@TabletBatch", EN + "[%]", None),
            Bt(da(ctx, "make_progress"), "self.tablet_batches[%]", EN + "[*].1", None)]
def est(b, *v):
    return V(b.E + ".cache_entry_state", *v)
def bst(b, *v):
    return V(b.B + ".batch_state", *v)
def follows(ctx, rule, f, a, b, assume, text, key):
    """Every path from a state in a passes b before the next element of a loop."""
    hp = stop_heads(f)
    # the walk stops at loop heads
    r = f.reach(a, avoid=set(b) , avoid_edge=lambda x, y, fs: x in hp or cut(assume)(x, y, fs))
    off = [p for p in r if p in hp] + [p for p in f.ends() if p in r]
    reach = f.reach(a, avoid_edge=lambda x, y, fs: x in hp or cut(assume)(x, y, fs))
    if off:
        ctx.bad(rule, showp(f, a[0]) if a else f.entry_body.name, text, key=key, path=f.path(off[0]))
    elif not (set(b) & reach):
        ctx.bad(rule, f.entry_body.name, text + " (never)", key=key)
    else:
        ctx.ok(rule, text + " @ " + showp(f, a[0]))

def batch_result(ctx):
    R = "batch-result"
    for b in batches(ctx):
        f, nm = b.f, b.f.entry_body.name.split("::")[-1]
        rem = b.B + ".remaining_cache_entries"
        all_ = [e for e in place_events(f, rem) if not dead_elem(f, e.args[0])]
        dec = [e for e in all_ if cv(e.args[0]).startswith("(")]
        ini = [e for e in all_ if e not in dec]
        rows = [Row("resolved entry is counted", [f"({b.B}.remaining_cache_entries Sub 1)"], never=[("the tablet is pending", [est(b, "Load", "Store")])])]
        if nm != "make_progress":
            rows.append(Row("number of tablets", [["len(new())", "len($2)"]], always=[("always", [])] if nm == "load_tablets" else []))
        table(ctx, R, f, dec + ini, rows, f"outstanding tablets ({nm})")
        dp = [e.p for e in dec]
        if ini:
            r = f.reach(dp, skip_start=True)
            ctx.check(not [e for e in ini if e.p in r], R, f.where(ini[0].n), "the number of outstanding tablets is set after some were counted", key=f"{R}:{nm}:late-count")
            for e in ini:
                for x in subterms(e.args[0]):
                    if is_local_coll(x):
                        elems(ctx, R, f, e.n, x, ["TabletCacheKey{%"], f"tablets waited for ({nm})", source="$2")
        # results
        res = call_events(f, "ResultSource::set_result")
        ld, st = f"{b.B}.batch_state.Load.", f"{b.B}.batch_state.Store."
        src_l, src_s = ([ld + "1", "create_eventual_result().1"], [st + "0", "create_eventual_result().1"])
        unready = [("tablets are outstanding", [REL(rem, "<>", "0")]), ("the tablet is pending or failed", [est(b, "Load", "Store", "Error")])]
        rows = [Row("loaded tablets", [src_l, [f"take({ld}0)", "take(new())", ld + "0"]], never=unready + [("the batch is not loading", [bst(b, "Store", "Error", "Completed")])]),
                Row("stored", [src_s, "()"], never=[])]
        if nm != "make_progress":
            rows.append(Row("nothing to load", [src_l, "new()"], never=[("tablets are requested", [T("is_empty(new())", False), T("is_empty($2)", False)])]))
        table(ctx, R, f, res, rows, f"result of a batch ({nm})")
        stored = [e for e in res if cv(e.args[1]) == "()"]
        # those after an entry was counted
        hp = stop_heads(f)
        for text, ass in unready + [("the batch is not storing", [bst(b, "Load", "Error", "Completed")])]:
            rr = f.reach(dp, avoid_edge=lambda x, y, fs: x in hp or cut(ass)(x, y, fs))
            off = [e for e in stored if e.p in rr]
            ctx.check(not off, R, f.where(off[0].n) if off else f.entry_body.name, f"a batch is reported as stored although {text}", key=f"{R}:{nm}:stored:{text}", path=f.path(off[0].p) if off else None)
        if nm != "make_progress":
            cnt = {e.p for e in dec}
            rr = live_from(f, None, [T("is_empty(new())", False), T("is_empty($2)", False)], avoid=cnt)
            off = [e for e in stored if e.p in rr]
            ctx.check(not off, R, f.entry_body.name, "a batch is reported as stored before any tablet was", key=f"{R}:{nm}:stored:none")
            # an empty batch completes at once
            follows_end(ctx, R, f, [e.p for e in res], [T("is_empty(new())", True), T("is_empty($2)", True), REL(rem, "=", "0"), bst(b, "Load" if nm == "load_tablets" else "Store")], f"an empty batch completes at once ({nm})", R + f":{nm}:empty")
        # completeness
        kinds = {"load_tablets": ["Load"], "store_tablets": ["Store"], "make_progress": ["Load", "Store"]}[nm]
        push = place_events(f, [ld + "0", "new()"], ("grow",))
        push = [e for e in push if cv(e.args[-1]).startswith("(")]
        for k in kinds:
            tgt = [e.p for e in res if (cv(e.args[1]) == "()") == (k == "Store")]
            follows(ctx, R, f, dp, tgt, [REL(rem, "=", "0"), est(b, "Cache"), bst(b, k)], f"the batch completes with its last tablet ({k}, {nm})", f"{R}:{nm}:{k}:complete")
            if k == "Load":
                table(ctx, R, f, push, [Row("loaded tablet", [f"({b.E}.tablet_metadata, [%]{b.E}.cache_entry_state.Cache.0%)".replace("[%]", "%")])], f"tablets of a loaded batch ({nm})")
                follows(ctx, R, f, dp, [e.p for e in push], [est(b, "Cache"), bst(b, "Load")], f"each cached tablet is part of the result ({nm})", f"{R}:{nm}:push")
                rr = f.reach(dp, avoid={e.p for e in push}, avoid_edge=lambda x, y, fs: x in hp or cut([est(b, "Cache"), bst(b, "Load")])(x, y, fs))
                off = [p for p in tgt if p in rr]
                ctx.check(not off, R, f.entry_body.name, "the result is set before the last tablet is part of it", key=f"{R}:{nm}:early")
    # registration
    for me in ("load_tablets", "store_tablets"):
        f = da(ctx, me)
        b = Bt(f, "@TabletBatch", EN + "[%]", None)
        reg = place_events(f, EN + "[%].tablet_batch_ids", ("grow",))
        dec = [e for e in place_events(f, "@TabletBatch.remaining_cache_entries") if cv(e.args[0]).startswith("(")]
        ins = map_events(f, "self.tablet_batches")
        table(ctx, R, f, ins, [Row("unfinished batch is kept", [None, "TabletBatch{%"])], f"batches ({me})")
        fresh_id(ctx, R, f, "self.batch_counter", [(e, e.args[0]) for e in ins] + [(e, e.args[0]) for e in reg] + [(e, flow.mk_fld(x[2] if x[0] == "cell" else x, "batch_id")) for e in ins for x in alts(e.args[1])], "batch id")
        keys = {p for h in key_loops(f) for p in f.bynode[h.id]}
        okl = False
        why = "no loop over the tablets of the batch"
        for h in key_loops(f):
            for pat in ("new()", "$2"):
                if loops_head(f, h, pat):
                    okk, why = foreach_states(f, [e.p for e in reg + dec], pat, [V(f"get({EN}, %", "ok")], heads=[h])
                    okl = okl or okk
        ctx.check(okl, R, f.entry_body.name, f"a tablet of the batch is neither resolved nor waited for: {why}", key=f"{R}:{me}:wait")
        hp = stop_heads(f)
        rr = f.reach([e.p for e in reg], avoid_edge=lambda x, y, fs: x in hp) & f.reach([e.p for e in reg], avoid_edge=lambda x, y, fs: x in hp)
        ctx.check(not [e for e in dec if e.p in rr], R, f.entry_body.name, "a tablet that is waited for is counted as resolved", key=f"{R}:{me}:both")
        rr = f.reach([e.p for e in dec], avoid_edge=lambda x, y, fs: x in hp)
        ctx.check(not [e for e in reg if e.p in rr], R, f.entry_body.name, "a tablet counted as resolved is waited for", key=f"{R}:{me}:both2")
        for k in ("Load", "Store"):
            r = live_from(f, None, [est(b, k)])
            ctx.check([e for e in reg if e.p in r], R, f.entry_body.name, f"a tablet in state {k} is not waited for", key=f"{R}:{me}:reg:{k}")
        # kept while outstanding
        r = live_from(f, None, [REL("@TabletBatch.remaining_cache_entries", "<>", "0"), V("TabletDataSerializer::serialize(%", "ok")], avoid={e.p for e in ins})
        off = [p for p in f.ends() if p in r]
        ctx.check(not off, R, f.entry_body.name, "a batch with outstanding tablets is forgotten", key=f"{R}:{me}:kept")
        rets = {cv(x) for p, x in flat(f)}
        ctx.check("create_eventual_result().0" in rets and (me == "store_tablets" or len(rets) == 1), R, f.entry_body.name, f"the handle returned is {sorted(rets)}", key=f"{R}:{me}:handle")
    # progress
    f = da(ctx, "make_progress")
    E = EN + "[*].1"
    tk = [e for e in place_events(f, E + ".tablet_batch_ids", ("shrink", "write"))]
    table(ctx, R, f, tk, [Row("waiting batches are notified", None, never=[("the tablet is pending", [V(E + ".cache_entry_state", "Load", "Store")])],
        foreach=[("for each cached tablet", EN, [V(E + ".cache_entry_state", "Cache")]), ("for each failed tablet", EN, [V(E + ".cache_entry_state", "Error")])])], "waiting batches")
    dec = place_events(f, "self.tablet_batches[%].remaining_cache_entries")
    dec = [e for e in dec if m("self.tablet_batches[" + E + ".tablet_batch_ids[*]].%", e.target)]
    ctx.need(dec, "batches resolved")
    okk, why = foreach_states(f, [e.p for e in dec], E + ".tablet_batch_ids", [V("get(self.tablet_batches, %", "ok")])
    ctx.check(okk, R, f.where(dec[0].n), "a waiting batch is not notified: " + why, key=R + ":progress:each")
    rm = place_events(f, "self.tablet_batches", ("shrink", "grow", "write"))
    table(ctx, R, f, rm, [Row("finished batch is forgotten", ["self.tablet_batches[*].0"], kind="shrink", never=[("tablets are outstanding", [REL("self.tablet_batches[*].1.remaining_cache_entries", "<>", "0")])],
        foreach=[("for each finished batch", "self.tablet_batches", [REL("self.tablet_batches[*].1.remaining_cache_entries", "=", "0")])])], "batches")
    g = da(ctx, "process_in_message")
    ev = place_events(g, ["self.tablet_batches", "self.tablet_batches[%]%", "self.tablet_cache_entries[%].tablet_batch_ids"])
    ctx.check(not ev, R, g.entry_body.name, "a response changes batches", key=R + ":in")

def dead_elem(f, t):
    """A term about an element of a local collection that stays empty."""
    return any(x[0] == "next" and is_local_coll(x[1]) and not pushes(f, x[1]) for x in subterms(t))
def follows_end(ctx, rule, f, b, assume, text, key):
    r = live_from(f, None, assume + [V("next($2)", "no"), V("next(new())", "no")], avoid=set(b))
    off = [p for p in f.ends() if p in r]
    ctx.check(not off, rule, f.entry_body.name, text + ": does not", key=key, path=f.path(off[0]) if off else None)
def loops_head(f, h, pat):
    ok, no = loop_edges(f, h, pat)
    return bool(ok)
def key_loops(f):
    return [h for pat in ("new()", "$2") for h in loops(f, pat)]

def batch_error(ctx):
    R = "batch-error"
    for b in batches(ctx):
        f, nm = b.f, b.f.entry_body.name.split("::")[-1]
        rem = b.B + ".remaining_cache_entries"
        dec = [e for e in place_events(f, rem) if cv(e.args[0]).startswith("(") and not dead_elem(f, e.args[0])]
        dp = [e.p for e in dec]
        err = call_events(f, "ResultSource::set_error")
        ld, st = f"{b.B}.batch_state.Load.1", f"{b.B}.batch_state.Store.0"
        table(ctx, R, f, err, [Row("failure", [[ld, st, "create_eventual_result().1"], ["TabletDataStorageStatus::Failed", "TabletDataStorageStatus::Unspecified"]], never=[("the tablet is cached or pending", [est(b, "Load", "Store", "Cache")]),
            ("the batch already ended", [bst(b, "Error", "Completed")])])], f"failure of a batch ({nm})")
        for k in {"load_tablets": ["Load"], "store_tablets": ["Store"], "make_progress": ["Load", "Store"]}[nm]:
            follows(ctx, R, f, dp, [e.p for e in err], [est(b, "Error"), bst(b, k)], f"a failed tablet fails the batch ({k}, {nm})", f"{R}:{nm}:{k}")
        # no second outcome
        wr = place_events(f, b.B + ".batch_state", ("write",))
        table(ctx, R, f, wr, [Row("batch ends", [["TabletBatchState::Error", "TabletBatchState::Completed"]])], f"state of a batch ({nm})")
        hp = stop_heads(f)
        for ev in err:
            rr = f.reach([ev.p], avoid={e.p for e in wr}, avoid_edge=lambda x, y, fs: x in hp)
            off = [p for p in rr if p in hp] + [p for p in f.ends() if p in rr]
            if not ctx.check(not off, R, f.where(ev.n), "a failed batch may be resolved again", key=f"{R}:{nm}:again"):
                break
    # failed tablets are dropped after everyone was told
    f = da(ctx, "make_progress")
    E = EN + "[*].1"
    rm = [e for e in place_events(f, EN, ("shrink",)) if "evict" not in cv(e.args[0])]
    ctx.need(rm, "removal of failed tablets")
    sites = []
    for e in rm:
        tup = ("agg", "tuple", "", (("0", e.args[0]),))
        for n2, t in expand(f, e.n, tup):
            for p in ([e.p] if n2 is e.n else f.bynode[n2.id]):
                sites.append(Ev(f, n2, p, "drop", "failed tablet", [t[3][0][1]]))
    table(ctx, R, f, sites, [Row("failed tablet is dropped", [EN + "[*].0"], never=[(f"the tablet is {s}", [V(E + ".cache_entry_state", s)]) for s in STATES if s != "Error"],
        foreach=[("for each failed tablet", EN, [V(E + ".cache_entry_state", "Error")])])], "failed tablets")
    if any(is_local_coll(y[1]) for e in rm for y in subterms(e.args[0]) if y[0] == "next"):
        okk, why = foreach_states(f, [e.p for e in rm], "new()")
        ctx.check(okk, R, f.where(rm[0].n), "a failed tablet is not dropped: " + why, key=R + ":drop")
    tk = {e.p for e in place_events(f, E + ".tablet_batch_ids", ("shrink", "write"))}
    ok = False
    for h in loops(f, EN):
        okE, noE = loop_edges(f, h, EN)
        if not any(p in f.reach([t for _, t in okE], avoid=set(f.bynode[h.id])) for p in tk):
            continue
        r = live_from(f, None, (), extra=lambda x, y, fs: (x, y) in noE)
        inside = [e for e in rm if e.p in r]
        rr = f.reach([t for _, t in okE], avoid=tk | set(f.bynode[h.id]), avoid_edge=cut([V(E + ".cache_entry_state", "Error")]))
        pre = live_from(f, avoid=set(f.bynode[h.id]))
        ok = ok or not [e for e in inside if e.p in rr or e.p in pre]
    ctx.check(ok, R, f.where(rm[0].n), "a failed tablet may be dropped before the batches waiting for it are told", key=R + ":order")

# ---------------------------------------------------------------- C13
def requests(ctx):
    R = "data-requests"
    for me, M, kind in (("load_tablets", "$2[*]", "Load"), ("store_tablets", "$2[*].0", "Store")):
        f = da(ctx, me)
        K = f"TabletCacheKey{{%}}"
        vac = V(f"get({EN}, %", "no")
        occ = [("the tablet is cached, loading or being stored", [V(f"get({EN}, %", "ok")])]
        msg = place_events(f, "self.out_messages", ("grow", "write", "shrink"))
        ops = map_events(f, "self.tablet_operations")
        ent = map_events(f, EN)
        each = [("for each tablet that is not known", "$2", [vac])] if me == "load_tablets" else []
        body = f"TabletDataCacheOutMessage::{kind}Request{{0=%, 1={kind}TabletRequest{{blob_uri={M}.blob_uri}}"
        body += "}" if kind == "Load" else ", 2=%}"
        stt = "TabletCacheEntryState::Load" if kind == "Load" else "TabletCacheEntryState::Store{0=TabletData{data=$2[*].1}}"
        table(ctx, R, f, msg, [Row("request", [body], kind="grow", never=occ, foreach=each)], f"requests ({me})")
        table(ctx, R, f, ops, [Row("awaited response", [None, K], never=occ, foreach=each)], f"awaited responses ({me})")
        table(ctx, R, f, ent, [Row("cache entry", [K, f"TabletCacheEntry{{tablet_metadata={M}, cache_entry_state={stt}, tablet_batch_ids=new()}}"], never=occ, foreach=each)], f"cache entries ({me})")
        keys = {cv(e.args[1]) for e in ops} | {cv(e.args[0]) for e in ent}
        for n in f.nodes:
            if n.id in f.reached:
                for p in f.bynode[n.id]:
                    for t, fs in f.psucc[p]:
                        for k, v in fs:
                            if k[0] == "var" and k[1][0] == "get" and cv(k[1][1]) == EN and cv(k[1][2]).startswith("TabletCacheKey"):
                                keys.add(cv(k[1][2]))
        ctx.check(len(keys) == 1, R, f.entry_body.name, f"different keys are used for a tablet: {sorted(keys)}", key=f"{R}:{me}:keys")
        for k in keys:
            ctx.check(f"{M}.blob_uri" in k and f"{M}.tablet_id" in k, R, f.entry_body.name, f"different tablets may share the key {k}", key=f"{R}:{me}:key")
        fresh_id(ctx, R, f, "self.correlation_counter", [(e, flow.mk_fld(alts(e.args[-1])[0], "0")) for e in msg] + [(e, e.args[0]) for e in ops], "data request")
        hp = stop_heads(f)
        mp, op, ep = ([e.p for e in x] for x in (msg, ops, ent))
        for a, ta in ((mp, "request"), (op, "record of it"), (ep, "cache entry")):
            for b_, tb in ((mp, "request"), (op, "record of it"), (ep, "cache entry")):
                if ta == tb:
                    continue
                # no path of one iteration has one without the other
                pre = f.reach([t for h in loops(f, "$2") for _, t in loop_edges(f, h, "$2")[0]], avoid=set(b_) | hp)
                st = [p for p in a if p in pre]
                r = f.reach(st, avoid=set(b_), avoid_edge=lambda x, y, fs: x in hp) if st else set()
                off = [p for p in r if p in hp] + [p for p in f.ends() if p in r]
                ctx.check(not off, R, f.entry_body.name, f"{ta} without {tb}", key=f"{R}:{me}:{ta}:{tb}")
            rr = f.reach(a, avoid_edge=lambda x, y, fs: x in hp, skip_start=True)
            ctx.check(not [p for p in a if p in rr], R, f.entry_body.name, f"two times {ta} for one tablet", key=f"{R}:{me}:{ta}:twice")
        if kind == "Store":
            okl = False
            for h in loops(f, "$2"):
                okl = okl or foreach_states(f, mp, "$2", [vac], heads=[h], base=[V("TabletDataSerializer::serialize(%", "ok")])[0]
            ctx.check(okl, R, f.entry_body.name, "a tablet that is not known is not stored", key=f"{R}:{me}:each")
            for e in msg:
                for n2, t in expand(f, e.n, flow.mk_fld(alts(e.args[0])[0], "2")):
                    ctx.check(m("TabletDataSerializer::serialize(self.tablet_serializer, $2[*].1)", cv(t)), R, f.where(e.n), f"the data stored is {cv(t)[:200]}", key=f"{R}:{me}:data")
    # responses
    f = da(ctx, "process_in_message")
    rm = place_events(f, "self.tablet_operations")
    rows = []
    for k in ("Load", "Store"):
        rows.append(Row(f"{k} response is matched once", [f"$2.{k}Response.0"], kind="shrink", always=[("it arrives", [V("$2", k + "Response")])]))
    table(ctx, R, f, rm, rows, "awaited responses")
    ws = place_events(f, EN + "[%].cache_entry_state") + map_events(f, EN) + place_events(f, EN, ("shrink",))
    rows = []
    for k, o in (("Load", "Store"), ("Store", "Load")):
        rows.append(Row(f"effect of a {k} response", None, target=f"{EN}[remove(self.tablet_operations, $2.{k}Response.0)].cache_entry_state",
                        never=[("no response was awaited", [V(f"remove(self.tablet_operations, %", "no")]), ("it is another response", [V("$2", o + "Response")])]))
    table(ctx, R, f, ws, rows, "effects of a response")
    out = place_events(f, ["self.out_messages", "self.correlation_counter", "self.batch_counter"])
    ctx.check(not out, R, f.entry_body.name, "a response causes requests or changes counters", key=R + ":resp")
    f = da(ctx, "take_out_messages")
    vs = [cv(t) for _, t in ret_values(f)]
    ctx.check(vs and all(v == "take(self.out_messages)" for v in vs), R, f.entry_body.name, f"messages returned are {vs}", key=R + ":take")
    f = da(ctx, "make_progress")
    out = place_events(f, ["self.out_messages", "self.correlation_counter", "self.tablet_operations", "self.batch_counter"])
    ctx.check(not out, R, f.entry_body.name, "progress changes requests", key=R + ":progress")

# ---------------------------------------------------------------- C14
def eviction(ctx):
    R = "eviction"
    f = da(ctx, "make_progress")
    ev = [e for e in call_events(f, "%::evict")]
    ctx.need(ev, "policy consulted")
    table(ctx, R, f, ev, [Row("policy is consulted", ["self.tablet_cache_policy", "$2", "self.config.tablet_cache_capacity", EN], always=[("progress is made", [])])], "eviction")
    rm = place_events(f, EN, ("shrink", "write", "grow")) + map_events(f, EN)
    chosen = "TabletDataCachePolicy::evict(%)[*]"
    table(ctx, R, f, rm, [Row("evicted tablet", [chosen], kind="shrink", foreach=[("for each tablet the policy chose", "TabletDataCachePolicy::evict(%)", [])]),
                          Row("failed tablet", [["new()[*]", EN + "[*].0"]], kind="shrink")], "tablets leaving the cache")
    ws = place_events(f, EN + "[%.cache_entry_state")
    ctx.check(not ws, R, f.entry_body.name, "progress changes the state of a tablet", key=R + ":state")
    for me in ("load_tablets", "store_tablets", "process_in_message"):
        g = da(ctx, me)
        ev = place_events(g, EN, ("shrink", "write"))
        ctx.check(not ev, R, g.entry_body.name, f"a tablet leaves the cache: {[e.text() for e in ev][:2]}", key=f"{R}:{me}")
        if me != "process_in_message":
            ws = place_events(g, EN + "[%.cache_entry_state")
            ctx.check(not ws, R, g.entry_body.name, "changes the state of a cached tablet", key=f"{R}:{me}:state")
    g = ctx.api("DefaultTabletDataCachePolicy", "TabletDataCachePolicy", "evict")
    for _, t in ret_values(g):
        for x in alts(t):
            ctx.check(is_local_coll(x) and not pushes(g, x), R, g.entry_body.name, "the default policy evicts tablets", key=R + ":default")
    h = da(ctx, "init")
    for fld, v in (("config", "$3"), ("logger", "$2")):
        table(ctx, R, h, place_events(h, "self." + fld), [Row(fld, [v], always=[("on init", [])])], "init")

# ---------------------------------------------------------------- C15
def verified_contents(ctx):
    R = "verified-contents"
    f = da(ctx, "process_in_message")
    L = f"{EN}[remove(self.tablet_operations, $2.LoadResponse.0)]"
    S = f"{EN}[remove(self.tablet_operations, $2.StoreResponse.0)]"
    des = "TabletDataSerializer::deserialize(self.tablet_serializer, %, $2.LoadResponse.2)"
    dig = ["%digest($2.LoadResponse.2)"]
    hsh = L + ".tablet_metadata.blob_hash"
    def status(k, *v):
        return V(f"$2.{k}Response.1.status", *v, adt="TabletDataStorageStatus", prog=ctx.prog)
    def conv(k, *v):
        # through from_i32 / try_from
        return [status(k, *v), V(f"TabletDataStorageStatus::%($2.{k}Response.1.status)?", *v), V(f"TabletDataStorageStatus::%($2.{k}Response.1.status)", "ok")]
    def unknown(k):
        return [V(f"TabletDataStorageStatus::%($2.{k}Response.1.status)", "no")]
    notsucc = lambda k: [("the storage reports failure", conv(k, "Failed")), ("the status is unspecified", conv(k, "Unspecified")), ("the status is unknown", unknown(k))]
    good = conv("Load", "Succeeded") + [V(des, "ok"), V("%deserialize(%", "ok")]
    match = REL(dig, "=", hsh)
    lw = place_events(f, L + ".cache_entry_state")
    table(ctx, R, f, lw, [
        Row("verified contents are cached", [f"TabletCacheEntryState::Cache{{0=TabletData{{data={des}}}}}"],
            never=notsucc("Load") + [("the hash differs", [REL(dig, "<>", hsh), T(f"is_empty({hsh})", False)]), ("it cannot be deserialised", [V(des, "no")]),
                                     ("the tablet is not loading", [V(L + ".cache_entry_state", "Store", "Cache", "Error")])],
            always=[("the contents are right", good + [match, V("$2", "LoadResponse"), V("remove(self.tablet_operations, %", "ok"), V(f"get({EN}, %", "ok"), V(L + ".cache_entry_state", "Load")])]),
        Row("failed tablet", ["TabletCacheEntryState::Error"],
            never=[("the contents are right", good + [match])],
            always=[(t, a + [V("$2", "LoadResponse"), V("remove(self.tablet_operations, %", "ok"), V(f"get({EN}, %", "ok"), V(L + ".cache_entry_state", "Load")])
                    for t, a in [("the storage reports failure", conv("Load", "Failed")), ("the hash differs", conv("Load", "Succeeded", "Failed") + [REL(dig, "<>", hsh), T(f"is_empty({hsh})", False)]),
                                 ("it cannot be deserialised", conv("Load", "Succeeded", "Failed") + [V(des, "no")])]])], "state of a loading tablet")
    ctx.check(any(tested(f, x) for x in (match,)), R, f.entry_body.name, "the contents are not compared with the hash", key=R + ":nohash")
    sw = place_events(f, S + ".cache_entry_state")
    live = [V("$2", "StoreResponse"), V("remove(self.tablet_operations, %", "ok"), V(f"get({EN}, %", "ok"), V(S + ".cache_entry_state", "Store")]
    table(ctx, R, f, sw, [
        Row("stored tablet is cached", [f"TabletCacheEntryState::Cache{{0=%{S}.cache_entry_state.Store.0%}}"], never=notsucc("Store") + [("the tablet is not being stored", [V(S + ".cache_entry_state", "Load", "Cache", "Error")])],
            always=[("the storage reports success", conv("Store", "Succeeded") + live)]),
        Row("failed tablet", ["TabletCacheEntryState::Error"], never=[("the storage reports success", conv("Store", "Succeeded"))], always=[("the storage reports failure", conv("Store", "Failed") + live)])], "state of a tablet being stored")
    ctors_within(ctx, R, "TabletCacheEntryState", "Cache", [f], "cached tablets")
    for me, arg, in (("serialize", "$2"), ("deserialize", "$3")):
        g = ctx.flow(ctx.body(selfty="BytesTabletDataSerializer", trait="TabletDataSerializer", method=me))
        vs = {cv(t) for _, t in ret_values(g)}
        ctx.check(vs == {arg}, R, g.entry_body.name, f"returns {sorted(vs)}", key=f"{R}:bytes:{me}")
