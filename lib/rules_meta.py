"""Tablet metadata cache: C20..C23."""
from rlib import *
from rules_coord import fresh_id, both, once
from rules_data import follows, stop_heads, dead_elem, flat

M_, MT = "DefaultTabletMetadataCache", "TabletMetadataCache"
NI = ("create_eventual_result", "set_result", "set_error")
def ma(ctx, me):
    return ctx.api(M_, MT, me, noinline=NI)
OR = "$2.ListResponse.1[*]"
RID = ["self.resolve_request_counter", "(1 Add self.resolve_request_counter)"]
LT = OR + ".op_result.ListTablet.0"
def dead(f, e):
    return any(dead_elem(f, a) or any(x[0] == "next" and x[1][0] in ("k", "call") and cv(x[1]) == "default" for x in subterms(a)) for a in e.args)

# ---------------------------------------------------------------- grouping
def cursor_of(f, inst, local):
    """The reassigned local that an operand is a copy of."""
    seen, st = set(), [(inst, local)]
    while st:
        i, l = st.pop(0)
        if (i.id, l) in seen:
            continue
        seen.add((i.id, l))
        ds = i.defs.get(l, [])
        if len(ds) > 1:
            return i, l
        st += f._uses_of(i, l)
    return None
def grouping(ctx, rule, f, what, keys, K, F, cur, group, differs, same, step=()):
    """Consecutive keys are collected in a group that is emitted with the
    cursor. K: states adding a key, F: states emitting, cur: cursor local."""
    A = [p for nid, d in cur[0].defs[cur[1]] for p in f.bynode.get(nid, [])]
    hs = [h for h in loops(f, keys)]
    okk, why = foreach_states(f, K, keys, heads=hs)
    ctx.check(okk, rule, showp(f, K[0]), f"{what}: a key is left out: {why}", key=f"{rule}:{what}:skip")
    hp, st = set(), []
    for h in hs:
        ok, no = loop_edges(f, h, keys)
        if set(K) & f.reach([t for _, t in ok], avoid=set(f.bynode[h.id])):
            hp |= set(f.bynode[h.id])
            st += [t for _, t in ok]
    r = live_from(f, st, differs, avoid=set(A) | hp)
    off = [p for p in K if p in r]
    ctx.check(not off, rule, showp(f, K[0]), f"{what}: a key joins the group of another one", key=f"{rule}:{what}:joined", path=f.path(off[0]) if off else None)
    # a cursor that advances step by step is compared again
    sp = [p for nid, d in cur[0].defs[cur[1]] for p in f.bynode.get(nid, []) if step and m(step, cv(f.desc(d, f.env_of(p))))]
    r = live_from(f, sp, differs, avoid=hp)
    off = [p for p in K if p in r]
    ctx.check(not off, rule, showp(f, K[0]), f"{what}: a key joins a group before its own", key=f"{rule}:{what}:short", path=f.path(off[0]) if off else None)
    if same:
        # only changes inside the iteration count
        r = live_from(f, st, same, avoid=hp)
        off = [p for p in A if p in r]
        ctx.check(not off, rule, showp(f, K[0]), f"{what}: the group changes although the key belongs to it", key=f"{rule}:{what}:changed")
    ne = [T("is_empty(new())", False), REL("len(new())", ">", "0")]
    r = live_from(f, K, ne, avoid=set(F))
    off = [p for p in A if p in r]
    ctx.check(not off, rule, showp(f, K[0]), f"{what}: the group changes before its keys are emitted", key=f"{rule}:{what}:lost", path=f.path(off[0]) if off else None)
    # emitted before the function is left for the next query
    outer = set(f.ends())
    for n in f.branches:
        if n.id in f.reached and not (set(f.bynode[n.id]) & (hp)):
            pass
    inner = f.reach(st, avoid=hp)
    r = live_from(f, K, ne, avoid=set(F))
    exits = [t for h in hs for _, t in loop_edges(f, h, keys)[1]]
    r2 = live_from(f, [p for p in exits if p in r], ne, avoid=set(F))
    newg = [p for n in f.nodes if n.id == group[3] for p in f.bynode[n.id]]
    off = [p for p in f.ends() + newg if p in r2]
    ctx.check(not off, rule, showp(f, K[0]), f"{what}: the last group is not emitted", key=f"{rule}:{what}:last", path=f.path(off[0]) if off else None)
    # emptied once emitted
    sh = set(newg)
    for e in place_events(f, "new()", ("shrink", "write")):
        t = f.argt(e.n, 0, f.env_of(e.p)) if e.n.kind == "call" else f.wpath(e.n, f.env_of(e.p))
        if group in alts(t):
            sh.add(e.p)
    r1 = f.reach(K, avoid=sh)
    r2 = f.reach([p for p in F if p in r1], avoid=sh)
    off = [p for p in K if p in r2]
    ctx.check(not off, rule, showp(f, K[0]), f"{what}: keys are emitted again with a later group", key=f"{rule}:{what}:again")

def opl(f, n, i):
    a = n.d["args"][i]
    return (n.inst, a[1][0])

def resolve_flows(ctx):
    """(flow, query, table, region index, key filter)"""
    rg = f"({LT}.key_hash_from Div self.tables[{OR}.table_name].region_size)"
    return [(ma(ctx, "resolve_tablets"), "new()[*].0", "new()[*].0.table_name", "new()[*].1"),
            (ma(ctx, "resolve_tablets_with_handler"), "new()[*].0", "new()[*].0.table_name", "new()[*].1"),
            (ma(ctx, "process_in_message"), f"remove(self.resolve_requests[new()[*]].pending_table_queries, ({OR}.table_name, {rg}))[*]", f"{OR}.table_name", rg)]

def key_owner(ctx):
    R = "key-owner"
    for f, q, tb, rg in resolve_flows(ctx):
        nm = f.entry_body.name.split("::")[-1]
        tab = f"self.tables[{tb}]"
        ids = f"{tab}.regions[{rg}].tablet_ids"
        rng = [f"range({ids}, RangeFrom{{start={q}.key_hashes[*]}})[*]"]
        owner = rng + [f"first({ids})"]
        em = [e for e in place_events(f, "new()", ("grow",)) if e.args and re.match(r"\(TableQuery\{.*\}, self\.tables\[", cv(e.args[-1])) and not dead(f, e)]
        ctx.need(em, f"resolved tablets in {nm}")
        qq = lambda k: f"TableQuery{{query_id={q}.query_id, table_name={q}.table_name, key_hashes={k}}}"
        table(ctx, R, f, em, [Row("clockwise tablet", [[f"({qq('%')}, {tab}.tablets[{o}])" for o in rng]]),
                              Row("first tablet after wrapping around", [[f"({qq('%')}, {tab}.tablets[first({ids})])"]])], f"tablet of a key ({nm})")
        stale = [("the region is stale", [V(f"{tab}.regions[{rg}].state", "Stale")])]
        for text, ass in stale:
            r = live_from(f, None, ass)
            off = [e for e in em if e.p in r]
            ctx.check(not off, R, f.where(em[0].n), f"a key is resolved although {text} ({nm})", key=f"{R}:{nm}:stale")
        # the keys of the emitted query are those grouped
        groups, done = set(), set()
        for e in em:
            t = e.args[-1]
            while t[0] != "agg" or t[1] != "tuple":
                t = t[1]
            kh = dict(dict(t[3])["0"][3])["key_hashes"]
            for x in alts(kh):
                if (e.n.id, x) in done:
                    continue
                done.add((e.n.id, x))
                for pn in pushes(f, x):
                    for p in f.bynode[pn.id]:
                        v = f.argt(pn, f.nargs(pn) - 1, f.env_of(p))
                        if v[0] == "pay" and v[1][0] == "next":
                            groups |= set(alts(v[1][1]))
                        else:
                            ctx.bad(R, f.where(pn), f"a key of the resolved query is {cv(v)}", key=f"{R}:{nm}:key")
                elems(ctx, R, f, e.n, x, [[f"{q}.key_hashes[*]", "$2[*].key_hashes[*]", "remove(self.resolve_requests[%].pending_table_queries, %)[*].key_hashes[*]"] + (["default[*].key_hashes[*]"] if "process" in nm else [])], f"keys resolved to a tablet ({nm})")
        ctx.need(groups, f"group of keys in {nm}")
        if len(groups) != 1:
            ctx.bad(R, f.where(em[0].n), f"keys come from {len(groups)} collections", key=f"{R}:{nm}:groups")
            continue
        g = list(groups)[0]
        K = [p for pn in pushes(f, g) for p in f.bynode[pn.id]]
        # the cursor: key of the lookup in tablets
        cur = None
        for n in f.calls(m={"get", "index", "get_mut"}):
            if any(m(f"{tab}.tablets", cv(f.argt(n, 0, f.env_of(p)))) for p in f.bynode[n.id]) and f.nargs(n) == 2 and any(m(owner, cv(f.argt(n, 1, f.env_of(p)))) for p in f.bynode[n.id]):
                cur = cur or cursor_of(f, *opl(f, n, 1))
        ctx.need(cur or [], f"tablet of the current group in {nm}")
        allq = [f"{q}.key_hashes", "default[*].key_hashes"]
        Fp = [e.p for e in place_events(f, "new()", ("grow",)) if e.args and re.match(r"\(TableQuery\{.*\}, self\.tables\[", cv(e.args[-1]))]
        oq = [o + x for o in owner for x in ("", "?")] + [o.replace(q, "default[*]") for o in owner]
        grouping(ctx, R, f, f"owner of a key ({nm})", allq, K, Fp, cur, g, [REL(oq, "<>", oq)], None)
        # what the cursor becomes inside the loop
        hk = [h for h in loops(f, allq)]
        it = f.reach([t for h in hk for _, t in loop_edges(f, h, allq)[0]], avoid={p for h in hk for p in f.bynode[h.id]})
        for nid, d in cur[0].defs[cur[1]]:
            for p in f.bynode.get(nid, []):
                v = cv(f.desc(d, f.env_of(p))).replace("default[*].key", q + ".key")
                if p in it:
                    ctx.check(m(owner, v), R, showp(f, p), f"a key is given to {v}", key=f"{R}:{nm}:owner-value")
        firsts = [p for nid, d in cur[0].defs[cur[1]] for p in f.bynode.get(nid, []) if p in it and cv(f.desc(d, f.env_of(p))).startswith("first(")]
        st = [t for h in hk for _, t in loop_edges(f, h, allq)[0]]
        r = live_from(f, st, [V(["next(range(%))"], "ok")], avoid={p for h in hk for p in f.bynode[h.id]})
        off = [p for p in firsts if p in r]
        ctx.check(not off and firsts, R, showp(f, (firsts or K)[0]), "the first tablet is taken although one follows the key", key=f"{R}:{nm}:wrap")

def split(ctx):
    """Queries are split by region before they are looked up."""
    R = "region-split"
    for me in ("resolve_tablets", "resolve_tablets_with_handler"):
        f = ma(ctx, me)
        size = "self.tables[$2[*].table_name].region_size"
        ev = [e for e in place_events(f, "new()", ("grow",)) if e.args and re.match(r"\(TableQuery\{query_id=\$2\[\*\]", cv(e.args[-1]))]
        ctx.need(ev, "queries split by region")
        idx = [f"({k} Div {size})" for k in ("first($2[*].key_hashes)", "$2[*].key_hashes[*]")]
        nxt = ["(1 Add rec)"] + [f"(1 Add {i})" for i in idx] + ["(rec Add 1)"] + [f"({i} Add 1)" for i in idx]
        table(ctx, R, f, ev, [Row("split query", [[f"(TableQuery{{query_id=$2[*].query_id, table_name=$2[*].table_name, key_hashes=new()}}, {i})" for i in idx + nxt]])], f"queries by region ({me})")
        groups, cur = set(), None
        for e in ev:
            t = e.args[-1]
            while t[0] != "agg" or t[1] != "tuple":
                t = t[1]
            for x in alts(dict(dict(t[3])["0"][3])["key_hashes"]):
                for pn in pushes(f, x):
                    for p in f.bynode[pn.id]:
                        v = f.argt(pn, f.nargs(pn) - 1, f.env_of(p))
                        if v[0] == "pay" and v[1][0] == "next":
                            groups |= set(alts(v[1][1]))
                elems(ctx, R, f, e.n, x, ["$2[*].key_hashes[*]"], f"keys of a split query ({me})")
            a = e.n.d["args"][e.n.d["cal"].m == "insert" and 2 or 1]
            # the tuple's second component
            i, l = e.n.inst, a[1][0]
            for _, d in i.defs.get(l, []):
                if d[0] == "rv" and d[2][0] == "agg":
                    o = d[2][5][1]
                    if o[0] in ("c", "m"):
                        cur = cur or cursor_of(f, i, o[1][0])
        ctx.need(groups, "group of keys per region")
        g = list(groups)[0]
        K = [p for pn in pushes(f, g) for p in f.bynode[pn.id]]
        if cur is None:
            # computed per key
            ctx.bad(R, f.where(ev[0].n), "the region of a group is not tracked", key=f"{R}:{me}:cursor")
            continue
        start = [f"({size} Mul {i})" for i in idx + nxt] + [f"({i} Mul {size})" for i in idx + nxt]
        end = ["u32::MAX"] + [f"(({s} Add {size}) Sub 1)" for s in start] + [f"({size} Add {s}) Sub 1)" for s in start] + [f"%saturating_add({s}, ({size} Sub 1))" for s in start]
        key = "$2[*].key_hashes[*]"
        grouping(ctx, R, f, f"region of a key ({me})", "$2[*].key_hashes", K, [e.p for e in ev], cur, g, [REL(key, ">", end), REL(idx + nxt, "<>", idx + nxt)], [REL(key, "<=", end)], nxt)
        for nid, d in cur[0].defs[cur[1]]:
            for p in f.bynode.get(nid, []):
                v = cv(f.desc(d, f.env_of(p)))
                ctx.check(m(idx + nxt, v), R, showp(f, p), f"the region of a key becomes {v}", key=f"{R}:{me}:region")
        tested_ = [k for o in f.psucc for t, fs in o or [] for k, v in fs if REL(key, "<", "%").touches(k)]
        ctx.need(tested_, "comparison of a key with the end of its region")
        for k in set(tested_):
            ctx.check(REL(key, "<", end).touches(k), R, f.entry_body.name, f"keys are compared with {[cv(x) for x in k[1:]]}", key=f"{R}:{me}:bound")
        bounds_gate(ctx, R, f, size, start, me)
        # all queries, none twice
        okk, why = foreach_states(f, K, "$2", [T("is_empty($2[*].key_hashes)", False), V("next($2[*].key_hashes)", "ok")])
        ctx.check(okk, R, f.entry_body.name, f"a query is not split: {why}", key=f"{R}:{me}:queries")

def bounds_gate(ctx, R, f, size, start, me):
    """Reaching the end of the ring is only assumed for the last region."""
    ok = True
    for o in f.psucc:
        for t, fs in o or []:
            for k, v in fs:
                a = REL(["(u32::MAX Sub " + size + ")"], "<", "%")
                if a.touches(k):
                    other = [x for x in k[1:] if "u32::MAX" not in cv(x)]
                    ok = ok and all(m(start, cv(x)) for x in other)
    ctx.check(ok, R, f.entry_body.name, "the last region is recognised by something else than its start", key=f"{R}:{me}:last-region")

PARTIAL = {"take", "skip", "filter", "filter_map", "take_while", "skip_while", "step_by"}
# ---------------------------------------------------------------- C21
def completion(ctx):
    R = "resolve-completes"
    seen = set()
    for me in ("resolve_tablets", "resolve_tablets_with_handler", "process_in_message"):
        f = ma(ctx, me)
        late = me == "process_in_message"
        W = "self.resolve_requests[new()[*]]"
        pend = W + ".pending_table_queries" if late else "new()"
        nt = V(W + ".notification", "ResultSource")
        res = call_events(f, "ResultSource::set_result")
        han = [e for e in call_events(f, ["%call%", "call%"]) if e.args and m([W + ".notification.Handler.0", "$3"], cv(e.args[0]))]
        rs0 = W + ".results" if late else "new()"
        src = {"resolve_tablets": "create_eventual_result().1", "process_in_message": W + ".notification.ResultSource.0"}
        notempty = [("queries are pending", [T(f"is_empty({pend})", False), REL(f"len({pend})", ">", "0")])]
        if me != "resolve_tablets_with_handler":
            table(ctx, R, f, res, [Row("resolved tablets", [src[me], ["new()", f"collect(%take({rs0})%"]], never=notempty)], f"result of a resolution ({me})")
        else:
            ctx.check(not res, R, f.entry_body.name, "a handler resolution sets a result", key=f"{R}:{me}:set")
        if me != "resolve_tablets":
            ctx.need(han, f"call of the resolve handler in {me}")
            for text, ass in notempty:
                r = live_from(f, None, ass)
                off = [e for e in han if e.p in r]
                ctx.check(not off, R, f.where(han[0].n), f"the handler is called although {text} ({me})", key=f"{R}:{me}:handler:{text}")
        done = [e.p for e in res + han]
        # completes when nothing is pending
        if not late:
            rr = live_from(f, None, [T(f"is_empty({pend})", True), REL(f"len({pend})", "=", "0")], avoid=set(done))
            off = [p for p in f.ends() if p in rr]
            ctx.check(not off, R, f.entry_body.name, f"a resolution without pending queries does not complete ({me})", key=f"{R}:{me}:always", path=f.path(off[0]) if off else None)
            once(ctx, R, f, res + han, f"the result of a resolution ({me})")
        else:
            ws = [h for h in loops(f, "new()") if waiters_loop(f, h)]
            ctx.need(ws, "loop over the waiting resolutions")
            okk, why = foreach_states(f, done, "new()", [T(f"is_empty({pend})", True), REL(f"len({pend})", "=", "0"), V(f"get(self.resolve_requests, new()[*])", "ok")], heads=ws)
            ctx.check(okk, R, f.entry_body.name, f"a waiting resolution does not complete: {why}", key=f"{R}:{me}:always")
        # what is reported: one entry per tablet and table
        rs = W + ".results" if late else "new()"
        for e in res:
            sites = elem_sites(f, e.n, e.args[1])
            for nodes, v in sites:
                s = cv(v)
                ctx.check(m(f"(TableQuery{{query_id={rs}[*].1.table_query_id, table_name={rs}[*].1.table_name, key_hashes=new()}}, {rs}[*].1.tablet_metadata)", s)
                          or m(f"(TableQuery{{query_id=%.table_query_id, table_name=%.table_name, key_hashes=new()}}, %.tablet_metadata)", s)
                          or m("(TableQuery{query_id=new()[*].0.query_id, table_name=new()[*].0.table_name, key_hashes=new()}, new()[*].1)", s), R, f.where(e.n), f"an element of the result is {s[:300]}", key=f"{R}:{me}:element")
            for nd in {q.id: q for x in alts(e.args[1]) if is_local_coll(x) for q in pushes(f, x)}.values():
                if (me, nd.id) in seen:
                    continue
                seen.add((me, nd.id))
                if True:
                    okk, why = foreach_states(f, f.bynode[nd.id], [rs, "new()", f"take({rs})"], heads=[h for h in loops(f, [rs, f"take({rs})"]) if set(f.bynode[nd.id]) & f.reach([t for _, t in loop_edges(f, h, [rs, f"take({rs})"])[0]], avoid=set(f.bynode[h.id]))] or None)
                    ctx.check(okk, R, f.where(nd), f"a resolved tablet is not reported: {why}", key=f"{R}:{me}:all")
        told = {}
        for e in han:
            t = e.args[-1]
            t = dict(t[3]).get("0", t) if t[0] == "agg" else t
            sites = [v for x in alts(t) for _, v in elem_sites(f, e.n, x)]
            ctx.need(sites, f"element told to the resolve handler ({me})")
            told.update({cv(v): e for v in sites})
            part = sorted({x[1] for y in alts(t) for x in subterms(y) if x[0] == "call" and x[1] in PARTIAL and (x[1] != "take" or len(x[2]) > 1)})
            ctx.check(not part, R, f.where(e.n), f"not all resolved tablets are told to the handler: {part}", key=f"{R}:{me}:handler:all")
        for s, e in told.items():
            ctx.check(m(["(TableQuery{query_id=%.table_query_id, table_name=%.table_name, key_hashes=new()}, TabletDescriptor{tablet_id=%.tablet_metadata.tablet_id, cache_ready=%})",
                         "(TableQuery{query_id=new()[*].0.query_id, table_name=new()[*].0.table_name, key_hashes=new()}, TabletDescriptor{tablet_id=new()[*].1.tablet_id, cache_ready=%})"], s),
                      R, f.where(e.n), f"the handler is told {s[:300]}", key=f"{R}:{me}:handler:element")
        # accumulated per tablet
        acc = map_events(f, [rs])
        acc = [e for e in acc if "TabletResolveResult" in cv(e.args[-1])]
        table(ctx, R, f, acc, [Row("accumulated result", ["(new()[*].0.table_name, new()[*].1.tablet_id)", "TabletResolveResult{table_query_id=new()[*].0.query_id, table_name=new()[*].0.table_name, tablet_metadata=new()[*].1, key_hashes=new()}"])], f"results of a resolution ({me})")
        kh = place_events(f, f"{rs}[(new()[*].0.table_name, new()[*].1.tablet_id)].key_hashes", ("grow",))
        table(ctx, R, f, kh, [Row("key of the tablet", [["new()[*].0.key_hashes[*]", "new()[*].0.key_hashes"]])], f"keys of a resolved tablet ({me})")
        if kh and m("%[*]", cv(kh[0].args[-1])):
            okk, why = foreach_states(f, [e.p for e in kh], "new()[*].0.key_hashes")
            ctx.check(okk, R, f.where(kh[0].n), f"a key of a resolved tablet is dropped: {why}", key=f"{R}:{me}:keys")
        fin = [n for n in f.calls(m=GROW) if any(m([rs + "[*].1.key_hashes[*]", "take(" + rs + ")[*].1.key_hashes[*]"], cv(f.argt(n, f.nargs(n) - 1, f.env_of(p)))) for p in f.bynode[n.id])]
        if fin:
            pt = [rs + "[*].1.key_hashes", "take(" + rs + ")[*].1.key_hashes"]
            okk, why = foreach_states(f, [p for n in fin for p in f.bynode[n.id]], pt)
            ctx.check(okk, R, f.where(fin[0]), f"a key of the result is dropped: {why}", key=f"{R}:{me}:result-keys")
        # each part that was resolved is accumulated
        if acc and kh:
            em = [h for h in loops(f, "new()") if any(e.p in f.reach([t for _, t in loop_edges(f, h, "new()")[0]], avoid=set(f.bynode[h.id])) for e in acc)]
            if late or True:
                inner = min(em, key=lambda h: len(f.reach([t for _, t in loop_edges(f, h, "new()")[0]], avoid=set(f.bynode[h.id])))) if em else None
                ctx.check(inner is not None, R, f.entry_body.name, f"resolved parts are not accumulated ({me})", key=f"{R}:{me}:accumulate")
                if inner is not None:
                    st = [t for _, t in loop_edges(f, inner, "new()")[0]]
                    r = live_from(f, st, [V("next(new()[*].0.key_hashes)", "ok")], avoid={e.p for e in kh})
                    off = [p for p in f.bynode[inner.id] if p in r] + [p for p in f.ends() if p in r]
                    ctx.check(not off, R, f.where(inner), f"the keys of a resolved part are dropped ({me})", key=f"{R}:{me}:part")
    # pending parts
    for me in ("resolve_tablets", "resolve_tablets_with_handler"):
        f = ma(ctx, me)
        region = "self.tables[new()[*].0.table_name].regions[new()[*].1]"
        fresh, stale = V(region + ".state", "Fresh"), V(region + ".state", "Stale")
        pq = place_events(f, "new()[(new()[*].0.table_name, new()[*].1)]", ("grow",))
        table(ctx, R, f, pq, [Row("query of a stale region", ["new()[*].0"], never=[("the region is fresh", [fresh])])], f"pending queries ({me})")
        reg = place_events(f, "self.tables[%].regions[%].state.Stale.0")
        table(ctx, R, f, reg, [Row("waiting resolution", [RID], kind="grow", target=region + ".state.Stale.0", never=[("the region is fresh", [fresh])])], f"resolutions waiting for a region ({me})")
        sp = [h for h in loops(f, "new()") if any(e.p in f.reach([t for _, t in loop_edges(f, h, "new()")[0]], avoid=set(f.bynode[h.id])) for e in pq)]
        first = [T("is_empty(new()[(new()[*].0.table_name, new()[*].1)])", True), V("get(new(), (new()[*].0.table_name, new()[*].1))", "no")]
        okk, why = foreach_states(f, [e.p for e in pq], "new()", [stale], heads=sp)
        ctx.check(okk, R, f.entry_body.name, f"a query of a stale region is dropped: {why}", key=f"{R}:{me}:pending")
        okk, why = foreach_states(f, [e.p for e in reg], "new()", [stale, V("get(self.tables[%].regions, new()[*].1)", "ok")] + first, heads=sp)
        ctx.check(okk, R, f.entry_body.name, f"the resolution does not wait for a stale region: {why}", key=f"{R}:{me}:register")
        # waiters are notified once
        rg = place_events(f, "self.resolve_requests")
        kind = "ResultSource{0=create_eventual_result().1}" if me == "resolve_tablets" else "Handler{0=$3}"
        table(ctx, R, f, rg, [Row("waiting resolution", [RID, ["TabletResolve{notification=TableResolveNotification::" + kind + ", pending_table_queries=new(), results=new()}"]],
                                  always=[("always", []), ])], f"resolutions ({me})")
        fresh_id(ctx, R, f, "self.resolve_request_counter", [(e, e.args[0]) for e in rg if len(e.args) == 2] + [(e, e.args[0]) for e in reg], f"identifier of a resolution ({me})")
        if me == "resolve_tablets":
            vs = {cv(x) for p, x in flat(f)}
            ctx.check(vs == {"create_eventual_result().0"}, R, f.entry_body.name, f"resolving returns {vs}", key=f"{R}:handle")
    # waiting resolutions
    f = ma(ctx, "process_in_message")
    rgi = f"({LT}.key_hash_from Div self.tables[{OR}.table_name].region_size)"
    RG = f"self.tables[{OR}.table_name].regions[{rgi}]"
    ok1 = [V(OR + ".op_result", "ok"), V(OR + ".op_result?", "ListTablet"), V(f"get(self.tables, {OR}.table_name)", "ok"), V(f"get(self.tables[{OR}.table_name].regions, {rgi})", "ok")]
    sh = place_events(f, "self.resolve_requests[new()[*]].pending_table_queries")
    table(ctx, R, f, sh, [Row("queries of the refreshed region", [f"({OR}.table_name, {rgi})"], kind="shrink")], "pending queries of a waiting resolution")
    ws = [h for h in loops(f, "new()") if waiters_loop(f, h)]
    okk, why = foreach_states(f, [e.p for e in sh], "new()", [V(f"get(self.resolve_requests, new()[*])", "ok")], heads=ws)
    ctx.check(okk, R, f.entry_body.name, f"a waiting resolution is not notified: {why}", key=f"{R}:notify")
    wn = [n for n in f.nodes if n.kind == "call" and n.id in f.reached and n.d["cal"] is not None and n.d["cal"].m in GROW and
          any(m([RG + ".state.Stale.0[*]", RG + ".state.Stale.0", f"take({RG}.state.Stale.0)", f"take({RG}.state.Stale.0)[*]"], cv(f.argt(n, f.nargs(n) - 1, f.env_of(p)))) and cv(f.argt(n, 0, f.env_of(p))) == "new()" for p in f.bynode[n.id])]
    ctx.need(wn, "resolutions to notify")
    for n in wn:
        if any(m("%[*]", cv(f.argt(n, f.nargs(n) - 1, f.env_of(p)))) for p in f.bynode[n.id]):
            okk, why = foreach_states(f, f.bynode[n.id], [RG + ".state.Stale.0", f"take({RG}.state.Stale.0)"])
            ctx.check(okk, R, f.where(n), f"a waiting resolution is forgotten: {why}", key=f"{R}:waiters")
    # waiters are read before the region becomes fresh, and always then
    fr = [e for e in place_events(f, RG + ".state", ("write",)) if cv(e.args[-1]).endswith("::Fresh")]
    ctx.need(fr, "region becomes fresh")
    r = live_from(f, [e.p for e in fr], avoid={p for h in loops(f, "$2.ListResponse.1") for p in f.bynode[h.id]})
    off = [p for n in wn for p in f.bynode[n.id] if p in r and "take(" not in cv(f.argt(n, f.nargs(n) - 1, f.env_of(p)))]
    ctx.check(not off, R, f.where(wn[0]), "waiting resolutions are read after they were dropped", key=f"{R}:order")
    wl = [h for h in loops(f, [RG + ".state.Stale.0"])]
    if wl:
        for h in loops(f, "$2.ListResponse.1"):
            ok, no = loop_edges(f, h, "$2.ListResponse.1")
            rr = live_from(f, [t for _, t in ok], [V(RG + ".state", "Stale")], avoid={p for w in wl for p in f.bynode[w.id]} | set(f.bynode[h.id]))
            off = [e.p for e in fr if e.p in rr]
            ctx.check(not off, R, f.where(fr[0].n), "a region becomes fresh without its waiting resolutions", key=f"{R}:skip-waiters")
    wt = loops(f, [f"take({RG}.state.Stale.0)"])
    if wt and not wl:
        outer = {p for h in loops(f, "$2.ListResponse.1") for p in f.bynode[h.id]}
        r = live_from(f, [e.p for e in fr], [V(RG + ".state", "Stale")], avoid={p for w in wt for p in f.bynode[w.id]})
        off = [p for p in outer if p in r]
        ctx.check(not off, R, f.where(fr[0].n), "a region becomes fresh without its waiting resolutions", key=f"{R}:skip-waiters")
    if ws:
        r = live_from(f, [e.p for e in fr], avoid={p for h in ws for p in f.bynode[h.id]})
        off = [p for p in f.ends() if p in r]
        ctx.check(not off, R, f.where(fr[0].n), "waiting resolutions are not notified after the region became fresh", key=f"{R}:no-notify")

def waiters_loop(f, h):
    """A loop whose elements identify waiting resolutions."""
    ok, no = loop_edges(f, h, "new()")
    r = f.reach([t for _, t in ok], avoid=set(f.bynode[h.id]))
    for n in f.calls(m={"get_mut", "get", "entry"}):
        if set(f.bynode[n.id]) & r and any(cv(f.argt(n, 0, f.env_of(p))) == "self.resolve_requests" for p in f.bynode[n.id]):
            k = f.argt(n, 1, f.env_of(f.bynode[n.id][0]))
            for p in f.bynode[h.id]:
                for t, fs in f.psucc[p]:
                    for kk, v in fs:
                        if kk[0] == "var" and is_next(kk[1]) and any(x == next_coll(kk[1]) for x in subterms(k)):
                            return True
    return False

# ---------------------------------------------------------------- C22
def listing(ctx):
    R = "list-requests"
    f = ma(ctx, "make_progress")
    tb = "self.tables[*].1"
    rg = tb + ".regions[*].1"
    size, start = tb + ".region_size", f"({tb}.region_size Mul {tb}.regions[*].0)"
    ends = [f"(({start} Add {size}) Sub 1)", f"(({size} Add {start}) Sub 1)", f"({start} Add ({size} Sub 1))", f"(({size} Sub 1) Add {start})"]
    op = lambda e: f"TabletOp{{table_name={tb}.table_name, op=Op::ListTablet{{0=ListTabletOp{{key_hash_from={start}, key_hash_to={e}}}}}}}"
    push = [e for e in place_events(f, "new()", ("grow",))]
    need = [V(rg + ".state", "Stale"), T(rg + ".state.Stale.1", False), T(f"is_empty({rg}.state.Stale.0)", False), REL(f"len({rg}.state.Stale.0)", ">", "0")]
    no = [("the region is fresh", [V(rg + ".state", "Fresh")]), ("a request is on its way", [T(rg + ".state.Stale.1", True)]),
          ("nobody waits", [T(f"is_empty({rg}.state.Stale.0)", True), REL(f"len({rg}.state.Stale.0)", "=", "0")])]
    last = [("the region is not the last", [REL(start, "<=", [f"(u32::MAX Sub {size})"])])]
    table(ctx, R, f, push, [Row("region of a table", [[op(x) for x in ends] + [op(f"%saturating_add({start}, ({size} Sub 1))")]] if not any("u32::MAX" in cv(e.args[-1]) for e in push) else [[op(x) for x in ends]],
                                never=no + ([("the region is the last", [REL(start, ">", [f"(u32::MAX Sub {size})"])])] if any("u32::MAX" in cv(e.args[-1]) for e in push) else []))]
          + ([Row("last region of a table", [op("u32::MAX")], never=no + last)] if any("u32::MAX" in cv(e.args[-1]) for e in push) else []), "tablets listed")
    rl = loops(f, [tb + ".regions"])
    okk, why = foreach_states(f, [e.p for e in push], [tb + ".regions"], need, heads=rl)
    ctx.check(okk, R, f.entry_body.name, f"a stale region is not refreshed: {why}", key=f"{R}:foreach")
    okk, why = foreach_states(f, [p for h in rl for p in f.bynode[h.id]], ["self.tables"])
    ctx.check(okk, R, f.entry_body.name, f"a table is left out: {why}", key=f"{R}:tables")
    pr = place_events(f, rg + ".state.Stale.1")
    table(ctx, R, f, pr, [Row("request on its way", ["true"], kind="write", never=no)], "region being refreshed")
    both_in(ctx, R, f, [e.p for e in push], [e.p for e in pr], "a list request is marked as sent")
    out = place_events(f, "self.out_messages")
    table(ctx, R, f, out, [Row("list request", ["TabletMetadataCacheOutMessage::ListRequest{0=%self.correlation_counter%, 1=new()}"], kind="grow",
                               always=[("tablets are to be listed", [T("is_empty(new())", False), REL("len(new())", ">", "0")])])], "list requests")
    for e in out:
        a = e.args[-1]
        ops = dict(a[3])["1"]
        ctx.check(all(is_local_coll(x) and {p for q in pushes(f, x) for p in f.bynode[q.id]} == {e2.p for e2 in push} for x in alts(ops)), R, f.where(e.n), "the request carries something else than the prepared operations", key=f"{R}:ops")
        for x in alts(ops):
            for q in shrinks_before(f, x, e.n):
                ctx.bad(R, f.where(q), "prepared list operations are dropped", key=f"{R}:dropped")
    once(ctx, R, f, out, "a list request")
    fresh_id(ctx, R, f, "self.correlation_counter", [(e, dict(e.args[-1][3])["0"]) for e in out], "list request")
    ctors_within(ctx, R, "TabletMetadataCacheOutMessage", "ListRequest", [f], "list requests")
    # results
    f = ma(ctx, "process_in_message")
    rgi = f"({LT}.key_hash_from Div self.tables[{OR}.table_name].region_size)"
    RG = f"self.tables[{OR}.table_name].regions[{rgi}]"
    okst = V(OR + ".status", "Succeeded", adt="TabletOpStatus", prog=ctx.prog)
    bad = V(OR + ".status", "Failed", adt="TabletOpStatus", prog=ctx.prog)
    known = [V(OR + ".op_result", "ok"), V(OR + ".op_result?", "ListTablet"), V(f"get(self.tables, {OR}.table_name)", "ok"), V(f"get(self.tables[{OR}.table_name].regions, {rgi})", "ok")]
    st = place_events(f, ["self.tables[%].regions[%].state", "self.tables[%].regions[%].state.Stale.1"], ("write",))
    S, F = V(RG + ".state", "Stale"), V(RG + ".state", "Fresh")
    table(ctx, R, f, st, [
        Row("region refreshed", ["TableRegionState::Fresh"], target=RG + ".state", never=[("listing failed", [bad])], foreach=[("for each listed region", "$2.ListResponse.1", known + [okst])]),
        Row("waiting resolutions kept", [[f"TableRegionState::Stale{{0=take({RG}.state.Stale.0), 1=false}}", "false"]], target=[RG + ".state", RG + ".state.Stale.1"], never=[("listing succeeded", [okst])],
            foreach=[("for each region that could not be listed", "$2.ListResponse.1", known + [bad, S])]),
        Row("nobody waits", ["TableRegionState::Stale{0=new(), 1=false}"], target=RG + ".state", never=[("listing succeeded", [okst]), ("resolutions may wait", [S])]),
    ], "state of a listed region")
    ids = place_events(f, "self.tables[%].regions[%].tablet_ids")
    never, each = [("listing failed", [bad])], [("for each listed region", "$2.ListResponse.1", known + [okst])]
    outer = {p for h in loops(f, "$2.ListResponse.1") for p in f.bynode[h.id]}
    gone = Row("forgotten", [], kind="shrink", target=RG + ".tablet_ids", min=0)
    if any(e.kind == "grow" for e in ids):
        # replaced in place: emptied, then filled
        def emptied(e):
            return e.kind == "shrink" and (e.n.kind == "assign" or e.n.d["cal"].m in ("clear", "take", "drain"))
        listed = lambda e, t: all(m(LT + ".tablets[*].tablet_id", cv(v)) for _, v in expand(f, e.n, t))
        table(ctx, R, f, ids, [Row("listed tablets", [listed], kind="grow", target=RG + ".tablet_ids", never=never),
                               Row("forgotten", [], kind="shrink", target=RG + ".tablet_ids", where=emptied, foreach=each)], "tablets of a listed region")
        grow = [e for e in ids if e.kind == "grow"]
        src = [x[1][1] for e in grow for x in subterms(e.args[-1]) if x[0] == "pay" and x[1][0] == "next" and is_local_coll(x[1][1])]
        for x in set(src):
            elems(ctx, R, f, grow[0].n, x, [LT + ".tablets[*].tablet_id"], "tablets of a listed region", source=LT + ".tablets")
        gp = {e.p for e in grow}
        hs = [h for h in loops(f, [LT + ".tablets", "new()"]) if gp & f.reach([t for _, t in loop_edges(f, h, [LT + ".tablets", "new()"])[0]], avoid=set(f.bynode[h.id]) | outer)]
        okk, why = foreach_states(f, gp, [LT + ".tablets", "new()"], known + [okst], heads=hs)
        ctx.check(okk, R, f.entry_body.name, f"a listed tablet is left out: {why}", key=f"{R}:ids-all")
        if hs:
            ends = live_from(f, [t for h in loops(f, "$2.ListResponse.1") for _, t in loop_edges(f, h, "$2.ListResponse.1")[0]], known + [okst], avoid={p for h in hs for p in f.bynode[h.id]})
            off = [p for p in outer if p in ends]
            ctx.check(not off, R, f.entry_body.name, "a listed region does not get its tablets", key=f"{R}:ids-region")
        r = f.reach([t for p in outer for t, _ in f.psucc[p]], avoid={e.p for e in ids if e.kind == "shrink"} | outer)
        off = [e for e in ids if e.kind == "grow" and e.p in r]
        ctx.check(not off, R, f.entry_body.name, "the tablets of a region are added to the ones known before", key=f"{R}:ids-kept")
    else:
        table(ctx, R, f, ids, [Row("listed tablets", [["collect(%)", "new()"]], kind="write", target=RG + ".tablet_ids", never=never, foreach=each), gone], "tablets of a listed region")
    late = f.reach([e.p for e in ids if e.kind != "shrink"], avoid=outer)
    ctx.check(not [e for e in ids if e.kind == "shrink" and e.p in late], R, f.entry_body.name, "the listed tablets are dropped again", key=f"{R}:ids-dropped")
    for e in ids:
        if e.kind != "write":
            continue
        for x in alts(e.args[-1]):
            src = x[2][0] if x[0] == "call" and x[1] == "collect" else x
            elems(ctx, R, f, e.n, src, [LT + ".tablets[*].tablet_id"], "tablets of a listed region", source=LT + ".tablets")

def both_in(ctx, rule, f, a, b, text):
    """Within an iteration, a and b occur together."""
    hp = stop_heads(f)
    for x, y in ((a, b), (b, a)):
        pre = set()
        # states reached from a loop head without y
        st = [t for p in hp for t, fs in f.psucc[p]] + list(f.start())
        pre = f.reach(st, avoid=set(y), avoid_edge=lambda p, q, fs: p in hp)
        s = [p for p in x if p in pre]
        r = f.reach(s, avoid=set(y), avoid_edge=lambda p, q, fs: p in hp) if s else set()
        off = [p for p in r if p in hp] + [p for p in f.ends() if p in r]
        if off:
            ctx.bad(rule, showp(f, s[0]), text + ": one happens without the other", key=rule + ":" + text, path=f.path(off[0]))
            return
    ctx.ok(rule, text)

def tables_init(ctx):
    R = "tables"
    f = ma(ctx, "init")
    c = ["self.config.table_configs[*]", "$3.table_configs[*]"]
    ev = map_events(f, "self.tables")
    table(ctx, R, f, ev, [Row("configured table", [[x + ".table_name" for x in c], [f"TableMetadata{{table_name={x}.table_name, region_size={x}.table_region_size, regions=%, tablets=new()}}" for x in c]],
                              foreach=[("for each configured table", [x[:-3] for x in c], [])])], "tables")
    for e in ev:
        v = e.args[-1]
        while v[0] == "cell":
            v = v[2]
        rg = dict(v[3])["regions"]
        sites = elem_sites(f, e.n, rg)
        ctx.need(sites, "regions of a table")
        rp = ["RangeInclusive{start=0, end=%}", "Range{start=0, end=%}"]
        okk, why = foreach_states(f, [p for nodes, _ in sites for q in nodes for p in f.bynode[q.id]], rp, [])
        ctx.check(okk, R, f.where(e.n), f"a region is left out: {why}", key=R + ":all-regions")
        for nodes, t in sites:
            a = [cv(flow.mk_fld(t, i)) for i in "01"]
            w = f.where(nodes[0]) if nodes else f.where(e.n)
            ctx.check(m(["TableRegion{state=TableRegionState::Stale{0=new(), 1=false}, tablet_ids=new()}"], a[1]), R, w, f"a region starts as {a[1]}", key=R + ":region")
            lastr = [f"(u32::MAX Div {y}.table_region_size)" for y in c]
            ctx.check(m([f"RangeInclusive{{start=0, end={l}}}[*]" for l in lastr] + [f"Range{{start=0, end=({x})}}[*]" for l in lastr for x in (f"1 Add {l}", f"{l} Add 1")], a[0]), R, w, f"the regions are {a[0]}", key=R + ":regions")

# ---------------------------------------------------------------- C23
def latest(ctx):
    R = "latest-metadata"
    f = ma(ctx, "update_tablet")
    cases = [(f, "self.tables[$2].tablets", "$3", "$2"), (ma(ctx, "process_in_message"), f"self.tables[{OR}.table_name].tablets", LT + ".tablets[*]", OR + ".table_name")]
    for f, mp, md, tn in cases:
        me = f.entry_body.name.split("::")[-1]
        ev = map_events(f, "self.tables[%].tablets")
        old = f"{mp}[{md}.tablet_id]"
        newer = REL([old + ".tablet_version"], "<", [md + ".tablet_version"])
        notnewer = [V(f"get({mp}, {md}.tablet_id)", "ok"), REL([old + ".tablet_version"], "=>", [md + ".tablet_version"])]
        base = [V(f"get(self.tables, {tn})", "ok")]
        rgi = f"({LT}.key_hash_from Div self.tables[{OR}.table_name].region_size)"
        if me == "process_in_message":
            fe = lambda a: dict(foreach=[("for each listed tablet", LT + ".tablets", a)])
        else:
            fe = lambda a: dict(always=[("the table is known", base + a)])
        up = [e for e in ev]
        table(ctx, R, f, up, [Row("latest version", [md + ".tablet_id", md], target=mp, never=[("a version at least as new is known", notnewer)])], f"known metadata ({me})")
        for text, a in (("a tablet becomes known", [V(f"get({mp}, {md}.tablet_id)", "no")]), ("a newer version becomes known", [V(f"get({mp}, {md}.tablet_id)", "ok"), newer])):
            table(ctx, R, f, up, [Row(text, [md + ".tablet_id", md], **fe(a))], f"known metadata ({me})", exhaustive=False)
    f = ma(ctx, "update_tablet")
    sh = [e for g in ctx.flows_of(M_, MT) for e in place_events(g, "self.tables[%].tablets", ("shrink",))] if hasattr(ctx, "flows_of") else place_events(f, "self.tables[%].tablets", ("shrink",))
    ctx.check(not sh, R, f.entry_body.name, "known metadata is dropped", key=R + ":dropped")
    # conflicts
    rg = "self.tables[$2].regions[($3.tablet_id Div self.tables[$2].region_size)]"
    S, Fr = V(rg + ".state", "Stale"), V(rg + ".state", "Fresh")
    base = [V("get(self.tables, $2)", "ok"), V("get(self.tables[$2].regions, ($3.tablet_id Div self.tables[$2].region_size))", "ok")]
    st = place_events(f, ["self.tables[%].regions[%].state", "self.tables[%].regions[%].state.Stale.1"], ("write",))
    table(ctx, R, f, st, [
        Row("waiting resolutions kept", [[f"TableRegionState::Stale{{0=take({rg}.state.Stale.0), 1=false}}", "false"]], target=[rg + ".state", rg + ".state.Stale.1"], never=[("there is no conflict", [T("$4", False)])]),
        Row("nobody waits", ["TableRegionState::Stale{0=new(), 1=false}"], target=rg + ".state", never=[("there is no conflict", [T("$4", False)]), ("resolutions may wait", [S])], always=[("a conflict hits a fresh region", base + [T("$4", True), Fr])]),
    ], "region of an updated tablet")
