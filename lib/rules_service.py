"""The endpoint between the host and the driver, and the deployed programs."""
from rlib import *
from rules_coord import once

DRV = "Application::receive_message"
RESP = "ReceiveMessageResponse"
def message_list(t):
    """The list a response is built from (through take, clone and conversions)."""
    for x in alts(t):
        while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Ok", "Some") and len(x[3]) == 1):
            x = x[1] if x[0] == "pay" else x[3][0][1]
        while x[0] == "call" and x[1].split("::")[-1] in ("take", "clone", "into", "collect", "into_iter", "drain", "replace") and x[2]:
            x = x[2][0]
        return x
def host_list(t):
    for x in alts(t):
        if x[0] == "agg":
            d = dict(x[3])
            if len(d) >= 1 and "messages" in d:
                return d["messages"]
    return None
def exchange(ctx, R, f, req, drv, replies, what):
    """One call of the driver per request, and the reply carries what the host collected in it."""
    calls = call_events(f, DRV)
    ctx.need(calls, f"{what}: calls of the driver")
    fresh = [e.p for e in calls]
    for e in calls:
        a = e.args
        ctx.check(len(a) == 4 and m(drv, cv(a[0])), R, f.where(e.n), f"{what}: another driver is called: {cv(a[0])[:100]}", key=f"{R}:{what}:driver")
        for i, fld in ((2, "instant"), (3, "message")):
            ctx.check(m([req + "." + fld, f"take({req}.{fld})"], cv(a[i])), R, f.where(e.n), f"{what}: the driver gets {cv(a[i])[:120]} as {fld}", key=f"{R}:{what}:{fld}")
        h = host_list(a[1])
        ctx.check(h is not None and cv(h) == "new()", R, f.where(e.n), f"{what}: the host is not a fresh one: {cv(a[1])[:120]}", key=f"{R}:{what}:host")
    bad = [V(DRV + "(%", "no")]
    good = [V(DRV + "(%", "ok")]
    ctx.need(replies, f"{what}: replies")
    lists = {h for e in calls for h in [host_list(e.args[1])] if h is not None}
    for n, p, t in replies:
        # a reply without messages is not one
        v = t
        ms = None
        for x in alts(v):
            while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Ok", "Some") and len(x[3]) == 1):
                x = x[1] if x[0] == "pay" else x[3][0][1]
            if x[0] == "agg" and "messages" in dict(x[3]):
                ms = dict(x[3])["messages"]
        ctx.check(ms is not None and message_list(ms) in lists, R, f.where(n), f"{what}: the reply does not carry the messages of the call: {cv(t)[:200]}", key=f"{R}:{what}:reply")
        ctx.check(p not in live_from(f, None, (), avoid=set(fresh)), R, f.where(n), f"{what}: a reply without the driver", key=f"{R}:{what}:early")
        r = live_from(f, [q for e in calls for q, _ in f.psucc[e.p] or []], bad, avoid=set(fresh))
        ctx.check(p not in r, R, f.where(n), f"{what}: a reply is sent although the driver is broken", key=f"{R}:{what}:broken")
    # what the host collected is not changed in between
    for n in f.calls(m=(REORDER | GROW) - {"take", "drain", "append", "extend"}):
        if n.d["cal"].body is None and f.nargs(n) and any(x in lists or message_list(x) in lists for p in f.bynode[n.id] for x in alts(f.argt(n, 0, f.env_of(p)))):
            ctx.bad(R, f.where(n), f"{what}: the messages are changed: {n.d['cal'].m}", key=f"{R}:{what}:changed")
    # and is collected in this call
    fresh = {p for x in lists if len(x) > 3 and isinstance(x[3], int) for p in f.bynode.get(x[3], [])}
    fresh |= {p for n in f.calls(m={"take", "drain", "append", "clear", "replace"}) for p in f.bynode[n.id] if f.nargs(n) and any(x in lists for x in alts(f.argt(n, 0, f.env_of(p))))}
    cs = {e.p for e in calls}
    ctx.check(not [p for p in f.reach(list(cs), avoid=fresh, skip_start=True) if p in cs], R, f.entry_body.name, f"{what}: messages of an earlier call are kept", key=f"{R}:{what}:kept")
    return calls, good, bad

def endpoint(ctx):
    """Each message of the host is answered with the messages of its own call."""
    for crate in ("tcp_runtime", "tcp_runtime_enclave"):
        ctx.only = crate
        endpoint_of(ctx)
    ctx.only = None
def endpoint_of(ctx):
    R = "endpoint"
    f = ctx.api("ApplicationService", "EndpointService", "receive_message", noinline=("receive_message",))
    nodes = {p: f.nodes[f.pnodes[p][0]] for p in f.ends()}
    rets = [(nodes[p], p, t) for p, t in ret_values(f)]
    calls, good, bad = exchange(ctx, R, f, "$2", "self.driver", rets, "service")
    once(ctx, R, f, calls, "calling the driver")
    # the service lives as long as the driver works: a broken driver ends it
    st = [q for e in calls for q, _ in f.psucc[e.p] or []]
    r = live_from(f, st, bad)
    ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, "the service survives a broken driver", key=f"{R}:service:survives")
    r = live_from(f, st, good)
    for n in f.nodes:
        if n.kind == "panic" and n.id in f.reached:
            ctx.check(not [p for p in f.bynode[n.id] if p in r], R, f.where(n), "the service ends although the driver works", key=f"{R}:service:ends")
    ctx.check(bool([p for p in f.ends() if p in r]), R, f.entry_body.name, "no reply", key=f"{R}:service:noreply")
    # the collecting host
    g = ctx.api("ApplicationHost", "Host", "send_messages")
    ev = grown(g, "self.messages")
    ctx.need(ev, "messages collected by the host")
    whole = [e.p for e in ev if m(["$2", "take($2)"], cv(e.args[-1]))]
    each = [e.p for e in ev if m(["$2[*]", "take($2)[*]"], cv(e.args[-1]))]
    for e in ev:
        ctx.check(m(["$2", "take($2)", "$2[*]", "take($2)[*]"], cv(e.args[-1])) and e.n.d.get("cal", None) is not None and e.n.d["cal"].m not in ("push_front", "insert") or e.n.kind == "item", R, g.where(e.n), f"the host collects something else: {e.text()[:160]}", key=f"{R}:host:other")
    if whole:
        r = live_from(g, None, (), avoid=set(whole))
        ctx.check(not [p for p in g.ends() if p in r], R, g.entry_body.name, "messages are not collected", key=f"{R}:host:lost")
        ctx.check(not [p for p in g.reach(whole, skip_start=True) if p in set(whole)], R, g.entry_body.name, "messages are collected twice", key=f"{R}:host:twice")
    else:
        ok, why = foreach_states(g, each, "$2", [])
        ctx.check(ok and bool(each), R, g.entry_body.name, f"messages are not collected: {why}"[:300], key=f"{R}:host:lost")
        hd = {p for h in loops(g, "$2") for p in g.bynode[h.id]}
        ctx.check(not [p for p in g.reach(each, avoid=hd, skip_start=True) if p in set(each)], R, g.entry_body.name, "messages are collected twice", key=f"{R}:host:twice")
    for e in place_events(g, ["self.%"], ("shrink", "write")):
        ctx.bad(R, g.where(e.n), f"collected messages are lost: {e.text()[:160]}", key=f"{R}:host:dropped")
    for n in altered(g, ["$2", "take($2)", "self.messages"], ("drain", "append")):
        ctx.bad(R, g.where(n), f"messages are dropped or reordered: {n.d['cal'].m}", key=f"{R}:host:altered")

def container(ctx):
    """Requests of the container service are processed one by one and answered to their sender."""
    R = "container"
    f = ctx.api("TonicApplicationService", None, "run_driver_loop", noinline=("receive_message", "new_driver"))
    NEXT = "Receiver::%recv($5)"
    recv = call_events(f, NEXT.split("(")[0])
    ctx.need(recv, "receiving requests")
    for e in recv:
        ctx.check(cv(e.args[0]) == "$5", R, f.where(e.n), "requests come from another channel", key=f"{R}:channel")
    nxt = [e.p for e in recv]
    sends = [e for e in call_events(f, "Sender::%send") if m(NEXT + ".1", cv(e.args[0]))]
    for e in call_events(f, "Sender::%send"):
        ctx.check(e in sends or m(NEXT + ".1", cv(e.args[0])), R, f.where(e.n), f"a reply goes to {cv(e.args[0])[:100]}", key=f"{R}:receiver")
    drv = "TonicApplicationService::new_driver($1, $2, $3, $4)"
    calls, good, bad = exchange(ctx, R, f, NEXT + ".0", ["%new_driver($1, $2, $3, $4)"], [(e.n, e.p, e.args[1]) for e in sends], "loop")
    made = call_events(f, "%new_driver")
    once(ctx, R, f, made, "making the driver")
    got, end = [V(NEXT, "ok")], [V(NEXT, "no")]
    for what, es in (("processed", calls), ("answered", sends)):
        ps = {e.p for e in es}
        r = live_from(f, [q for p in nxt for q, _ in f.psucc[p] or []], got + good, avoid=ps | set(nxt))
        rr = live_from(f, [q for p in nxt for q, _ in f.psucc[p] or []], got + good, avoid=ps)
        ctx.check(not [p for p in f.ends() if p in r] and not [p for p in nxt if p in rr], R, f.entry_body.name, f"a request is not {what}", key=f"{R}:not-{what}")
        ctx.check(not [p for p in f.reach(list(ps), avoid=set(nxt), skip_start=True) if p in ps], R, f.entry_body.name, f"a request is {what} twice", key=f"{R}:twice-{what}")
    r = live_from(f, [q for e in calls for q, _ in f.psucc[e.p] or []], bad)
    ctx.check(not [p for p in f.ends() if p in r] and not [p for p in nxt if p in r], R, f.entry_body.name, "the loop survives a broken driver", key=f"{R}:survives")
    # after a request the next one is taken; the loop ends only with the channel
    okreq = got + good + [V("Sender::%send(%", "ok")]
    r = live_from(f, None, okreq)
    ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, "the loop ends although requests may come", key=f"{R}:ends")
    # the loop gets the receiver of the channel whose sender the service keeps
    g = ctx.api("TonicApplicationService", None, "new", noinline=("run_driver_loop", "new_driver"))
    lp = call_events(g, "%run_driver_loop")
    ctx.need(lp, "start of the driver loop")
    ret = [t for _, t in ret_values(g)]
    snd = {message_list(x) for t in ret for a in alts(t) if a[0] == "agg" for k, x in a[3] if k == "sender"}
    for e in lp:
        ctx.check(m("call_once($4%", cv(e.args[0])) and [cv(x) for x in e.args[1:4]] == ["$1", "$2", "$3"], R, g.where(e.n), f"the loop gets {[cv(x)[:60] for x in e.args[:4]]}", key=f"{R}:loop-args")
        ctx.check(bool(snd) and all(x[0] == "fld" and ("fld", x[1], "1") == y or x[0] == "fld" and y[0] == "fld" and y[1] == x[1] and (x[2], y[2]) == ("0", "1") for x in snd for y in alts(e.args[4])), R, g.where(e.n), f"the loop listens to another channel: {cv(e.args[4])}", key=f"{R}:loop-channel")
    sp = [n for n in g.calls(m={"spawn_blocking", "spawn"})]
    ctx.check(len(sp) == 1 and not [p for p in g.ends() if p in live_from(g, None, (), avoid={p for n in sp for p in g.bynode[n.id]})], R, g.entry_body.name, "the loop is not started exactly once", key=f"{R}:spawn")
    # asynchronous side
    b = [x for x in ctx.prog.bodies.values() if x.kind == "Closure" and x.file.endswith("service.rs") and "TonicApplicationService" in x.path and "receive_message::{closure#0}" in x.path and x.path.count("{closure") == 1]
    b = ctx.need(b, "asynchronous receive_message")[0]
    h = ctx.flow(b)
    put = call_events(h, "Sender::send")
    ctx.need(put, "sending the request")
    once(ctx, R, h, put, "sending the request")
    tx = set()
    for e in put:
        ctx.check(m("%self.sender", cv(e.args[0])), R, h.where(e.n), f"the request goes to {cv(e.args[0])}", key=f"{R}:async:sender")
        a = next((dict(x[3]) for x in alts(e.args[1]) if x[0] == "agg"), {})
        ctx.check(set(a) == {"0", "1"} and m(["%request", "%into_inner(%request)"], cv(a["0"])), R, h.where(e.n), f"the loop gets {cv(e.args[1])}", key=f"{R}:async:request")
        if "1" in a:
            tx |= set(alts(a["1"]))
    for p, t in ret_values(h):
        s = cv(t)
        if s.startswith("Err"):
            continue
        src = next((x for x in subterms(t) if x[0] == "fld" and x[2] == "1" and ("fld", x[1], "0") in {(y[0], y[1], y[2]) for y in tx if y[0] == "fld"}), None)
        ctx.check(src is not None and m("Response::new(poll(%", s), R, h.entry_body.name, f"the reply is {s[:200]}", key=f"{R}:async:reply")
        ctx.check(p not in live_from(h, None, (), avoid={e.p for e in put}), R, h.entry_body.name, "a reply without a request", key=f"{R}:async:early")
    for what, a in (("the request cannot be sent", [V("poll(Sender::send(%", "no")]), ("there is no reply", [V("poll(channel().1%", "no")])):
        r = live_from(h, None, a)
        ctx.check(not [p for p, t in ret_values(h) if p in r and not cv(t).startswith("Err")], R, h.entry_body.name, f"{what}: no error", key=f"{R}:async:{what}")
    # the end of the service ends the loop
    d = ctx.api("TonicApplicationService", "Drop", "drop")
    join = [e.p for e in call_events(d, "Handle::block_on") if any("self.join_handle" in cv(x) for x in e.args)]
    gone = {e.p for e in place_events(d, "self.sender", ("shrink", "write"))}
    ctx.check(bool(join) and not [p for p in join if p in live_from(d, None, (), avoid=gone)], R, d.entry_body.name, "the service waits for the loop before its channel is closed", key=f"{R}:drop")

WIRING = {"driver_state": "DriverState::Created", "messages": "new()", "snapshots": "new()", "is_ephemeral": "false", "lameduck_mode": "false", "cluster_check_requested": "false"}
def wiring(ctx):
    """The services are made of the parts that are meant for them."""
    R = "wiring"
    for crate, st, me, actor, binder, att, ses in (("tcp_runtime", "ApplicationService", "new", "$1", "DefaultOakSessionBinderFactory", "DefaultOakAttesterFactory", ""),
                                              ("tcp_runtime", "TonicApplicationService", "new_driver", "$1", "OakContainersSessionBinderFactory{channel=$2}", "OakContainersAttesterFactory{evidence=$3}", "")):
        f = ctx.api(st, None, me)
        rv = [t for _, t in ret_values(f)]
        ctx.need(rv, "driver")
        for t in rv:
            d = next((x for x in subterms(t) if x[0] == "agg" and "driver_state" in dict(x[3])), None)
            if not ctx.check(d is not None, R, f.entry_body.name, "no driver is built", key=f"{R}:{st}:driver"):
                continue
            d = dict(d[3])
            for k, w in WIRING.items():
                ctx.check(k in d and cv(d[k]) == w, R, f.entry_body.name, f"the driver starts with {k} = {cv(d.get(k, ('k', '?')))[:80]}", key=f"{R}:{st}:{k}")
            for k, w in (("actor", actor), ("core", "DriverContextCore{%proposals=new()}"), ("raft", "RaftSimple{%"), ("snapshot", "%DefaultSnapshotProcessor{%sender=%DefaultSnapshotSender{%receiver=%DefaultSnapshotReceiver{%"), ("communication", "%DefaultHandshakeSessionProvider{%"), ("communication", f"%session_binder_factory={binder}%"), ("communication", f"%attester_factory={att}%")):
                ctx.check(k in d and m(w, cv(d[k])), R, f.entry_body.name, f"the driver is made with {k} = {cv(d.get(k, ('k', '?')))[:200]}", key=f"{R}:{st}:{k}:{w[:30]}")

PROGRAMS = {"atomic_counter_app": "apps/atomic_counter/app/src/main.rs", "tablet_store_app": "apps/tablet_store/app/src/main.rs", "tablet_cache_app": "apps/tablet_cache/app/src/main.rs",
            "atomic_counter_container": "apps/atomic_counter/container/src/main.rs", "willow_container": "apps/willow/decryptor/container/src/main.rs"}
QUIET = {"LevelFilter::Warn", "LevelFilter::Error", "LevelFilter::Off"}
def programs(ctx):
    """The deployed programs limit logging first, and run the service over its actor."""
    R = "programs"
    for crate, file in PROGRAMS.items():
        bs = [b for b in ctx.prog.bodies.values() if b.crate == crate and b.file.endswith(file) and (b.path == "run_server" or b.path == "main::{closure#0}")]
        b = ctx.need(bs, f"entry point of {crate}")[0]
        f = ctx.flow(b, noinline=("new", "create", "new_with_reference_values", "get_reference_values"))
        lim = [e for e in call_events(f, "set_max_level")]
        ctx.check(bool(lim), R, f.entry_body.name, f"{crate}: logging is not limited", key=f"{R}:{crate}:limit")
        for e in lim:
            ctx.check(cv(e.args[0]) in QUIET, R, f.where(e.n), f"{crate}: the log level is {cv(e.args[0])}", key=f"{R}:{crate}:level")
        r = live_from(f, None, (), avoid={e.p for e in lim})
        for n in f.nodes:
            if n.kind == "call" and n.id in f.reached and n.d["cal"] is not None and n.d["cal"].m not in ("set_max_level",) and (n.d["cal"].m in ("start_blocking_server", "default_orchestrator_channel", "serve") or "Service" in n.d["cal"].name):
                ctx.check(not [p for p in f.bynode[n.id] if p in r], R, f.where(n), f"{crate}: {n.d['cal'].name} runs before logging is limited", key=f"{R}:{crate}:late:{n.d['cal'].name}")
        sv = call_events(f, ["ApplicationService::new", "TonicApplicationService::new"])
        ctx.need(sv, f"{crate}: service")
        once(ctx, R, f, sv, f"{crate}: making the service")
        for e in sv:
            if e.n.d["cal"].name.startswith("Tonic"):
                CH = "Context::context(poll(default_orchestrator_channel()%"
                ctx.check(m(CH, cv(e.args[0])), R, f.where(e.n), f"{crate}: the service binds sessions with {cv(e.args[0])[:100]}", key=f"{R}:{crate}:channel")
                ctx.check("OrchestratorClient::get_endorsed_evidence(" in cv(e.args[1]) and m(["%.evidence", "%.evidence?"], cv(e.args[1])), R, f.where(e.n), f"{crate}: the evidence is {cv(e.args[1])[-100:]}", key=f"{R}:{crate}:evidence")
        run = [e for e in call_events(f, ["%start_blocking_server", "%Server::%add_service", "Router::serve", "%::serve", "add_service"])]
        ctx.need(run, f"{crate}: server")
        used = [e for e in run if any("ApplicationService::new(" in cv(a) for a in e.args)]
        ctx.check(bool(used), R, f.entry_body.name, f"{crate}: the server does not serve the service", key=f"{R}:{crate}:serve")
    for crate in ("atomic_counter_container", "willow_container"):
        b = ctx.need([b for b in ctx.prog.bodies.values() if b.crate == crate and b.path == "get_reference_values"], f"reference values of {crate}")[0]
        f = ctx.flow(b)
        for p, t in ret_values(f):
            s = cv(t)
            for layer in ("root_layer", "kernel_layer", "system_layer", "container_layer"):
                d = next((dict(x[3]) for x in subterms(t) if x[0] == "agg" and "container_layer" in dict(x[3])), {})
                ctx.check("Type::OakContainers{" in s and layer in d and cv(d[layer]) != "None" and not cv(d[layer]).startswith("default:"), R, f.entry_body.name, f"{crate}: the reference values of containers have no {layer}", key=f"{R}:{crate}:{layer}")
