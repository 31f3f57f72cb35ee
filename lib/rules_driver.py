"""The driver: what one message of the host does to a replica. Everything is decided
on the flow of Driver::receive_message with the driver's own functions inlined."""
from rlib import *
from rules_storage import quiet, PANIC
from rules_coord import once
from rules_rsm import find_field

def variants(ctx, adt, root=None):
    return sorted({v[0] for a, d in ctx.prog.adts.items() if a.endswith("::" + adt) and (root is None or a == root + "::" + adt) for v in d["variants"]})
def drv(ctx):
    return ctx.api("Driver", "Application", "receive_message")
HOST, NOW, IN = "$2", "$3", "$4"
def K(*k):
    return [V(IN, "ok"), V(IN + ".msg", "ok"), V(IN + ".msg?", *k)]
UP, DOWN = V("self.driver_state", "Started"), V("self.driver_state", "Created", "Stopped")
EPH, REPL = T("self.is_ephemeral", True), T("self.is_ephemeral", False)
ARG = lambda k: f"{IN}.msg.{k}.0"
INVALID = "Err{0=PalError::InvalidOperation}"
RD = "Raft::get_ready(self.raft)"
LRD = f"Raft::advance_ready(self.raft, {RD})"
STORE = "Raft::mut_store(self.raft)"
RUN = V(IN + ".msg", "ok")
INIT, HASR = ["%initialized(self.raft)"], ["%has_ready(self.raft)"]
READY = [T(INIT, True), T(HASR, True), REPL, RUN]
EMPTY = lambda x, v: T([f"is_empty({x})", f"%::is_empty({x})"], v)
PRESET = ["self.prev_raft_state", "self.instant", "self.core.instant", "self.core.leader"]
def oks(f):
    """The states in which the call returns without an error."""
    if not hasattr(f, "_oks"):
        f._oks = [p for p, t in ret_values(f) if any(not cv(x).startswith("Err") for x in alts(t))]
    return f._oks
def results(ctx, R, f, name, assume, want):
    rr = live_from(f, None, assume)
    got = {}
    for p, t in ret_values(f):
        if p in rr:
            for x in alts(t):
                got.setdefault(cv(x), p)
    ctx.check(bool(got), R, f.entry_body.name, f"{name}: the call never returns", key=f"{R}:{name}:none")
    for s, p in got.items():
        ctx.check(m(want, s), R, showp(f, p), f"{name}: the result is {s[:300]}", key=f"{R}:{name}")
def fails(ctx, R, f, name, assume, want="Err{%"):
    """After the failing operation the call returns the error: no successful return."""
    rr = live_from(f, None, assume)
    bad = [p for p in oks(f) if p in rr]
    ctx.check(not bad, R, showp(f, bad[0]) if bad else "", f"{name}: the call goes on and succeeds", key=f"{R}:{name}")
def tab(ctx, R, f, events, rows, what, exhaustive=True):
    """table with always and foreach for the calls that succeed."""
    keep = [(r, r.always, r.foreach) for r in rows]
    for r in rows:
        r.always, r.foreach = (), ()
    per = table(ctx, R, f, events, rows, what, exhaustive=exhaustive)
    for r, al, fe in keep:
        r.always, r.foreach = al, fe
        ps = [e.p for e in per[id(r)]]
        if not ps:
            continue
        for t, a in al:
            rr = live_from(f, None, a, avoid=set(ps))
            off = [p for p in oks(f) if p in rr]
            ctx.check(not off, R, showp(f, off[0]) if off else "", f"{what}: {r.name}: does not happen although {t}", key=f"{R}:{r.name}:always:{t}")
            rr = live_from(f, None, a)
            ctx.check(any(p in rr for p in ps), R, f.entry_body.name, f"{what}: {r.name}: never happens when {t}", key=f"{R}:{r.name}:always:{t}")
        for t, coll, a in fe:
            okk, why = foreach_states(f, ps, coll, a, until=oks(f))
            ctx.check(okk, R, f.entry_body.name, f"{what}: {r.name}: not {t}: {why}"[:700], key=f"{R}:{r.name}:foreach:{t}")
    return per
def after(ctx, R, f, first, then, text, assume=(), starts=None):
    """No state of `then` is reached before one of `first`."""
    r = live_from(f, starts, assume, avoid=set(first))
    off = [p for p in then if p in r]
    ctx.check(bool(first) and bool(then) and not off, R, showp(f, off[0]) if off else f.entry_body.name, text, key=f"{R}:order:{text}")
def states(es):
    return [e.p for e in es]
def outm(k):
    return f"OutMessage{{msg=Msg::{k}{{0=%}}}}"

# ---------------------------------------------------------------- gate
def gate(ctx):
    """Messages that the replica cannot process now are rejected without effect."""
    R = "gate"
    f = drv(ctx)
    kinds = variants(ctx, "runtime::endpoint::in_message::Msg")
    ctx.check(set(kinds) == {"StartReplica", "StopReplica", "ChangeCluster", "CheckCluster", "DeliverSystemMessage", "DeliverSnapshotRequest", "DeliverSnapshotResponse", "DeliverSnapshotFailure", "GetReplicaState", "SecureChannelHandshake", "DeliverAppMessage", "EnterLameduckMode"}, R, "InMessage", f"kinds of messages: {sorted(kinds)}", key=f"{R}:kinds")
    def rejected(name, a):
        results(ctx, R, f, name, a, INVALID)
        rr = live_from(f, None, a)
        for e in place_events(f, "self.%"):
            ctx.check(e.p not in rr or e.target in PRESET, R, f.where(e.n), f"{name}: {e.text()[:200]}", key=f"{R}:{name}:changes")
        for e in call_events(f, ["Raft::%", "Store::%", "Actor::%", "CommunicationModule::%", "Snapshot%::%", "Host::send_messages"]):
            ctx.check(e.p not in rr or e.n.d["cal"].name.endswith("Raft::leader") or e.n.d["cal"].m in ("leader",), R, f.where(e.n), f"{name}: {e.text()[:200]}", key=f"{R}:{name}:calls")
    for k in ("ChangeCluster", "CheckCluster", "DeliverSystemMessage", "DeliverSnapshotRequest", "DeliverSnapshotResponse", "DeliverSnapshotFailure", "GetReplicaState", "SecureChannelHandshake"):
        rejected(f"{k} while the replica does not run", K(k) + [DOWN])
    rejected("a second start", K("StartReplica") + [V("self.driver_state", "Started", "Stopped")])
    for k in ("ChangeCluster", "CheckCluster", "DeliverSystemMessage", "DeliverSnapshotRequest", "DeliverSnapshotResponse", "DeliverSnapshotFailure"):
        rejected(f"{k} for an ephemeral replica", K(k) + [UP, EPH])
    # an empty message
    a = [V(IN, "ok"), V(IN + ".msg", "no")]
    results(ctx, R, f, "an empty message", a, "()")
    rr = live_from(f, None, a)
    for e in place_events(f, "self.%"):
        ctx.check(e.p not in rr or e.target in PRESET, R, f.where(e.n), f"an empty message: {e.text()[:200]}", key=f"{R}:empty:changes")
    # the actor only works while the replica runs
    started = {e.p for e in place_events(f, "self.driver_state") if cv(e.args[-1]) == "DriverState::Started"}
    for e in call_events(f, "Actor::on_process_command") + call_events(f, "CommunicationModule::make_tick"):
        ctx.check(e.p not in live_from(f, None, [DOWN]), R, f.where(e.n), f"{e.n.d['cal'].m} although the replica does not run", key=f"{R}:{e.n.d['cal'].m}")
    # an ephemeral replica has no Raft node
    rr = live_from(f, None, [EPH])
    for e in call_events(f, ["Raft::%", "Store::%", "SnapshotProcessor::%", "SnapshotSender::%", "SnapshotReceiver::%"]):
        ctx.check(e.p not in rr or e.n.d["cal"].m == "leader", R, f.where(e.n), f"an ephemeral replica replicates: {e.text()[:200]}", key=f"{R}:ephemeral:{e.n.d['cal'].m}")
    # states of the driver
    tab(ctx, R, f, place_events(f, "self.driver_state"), [
        Row("started", ["DriverState::Started"], kind="write", never=[("another message comes", K(*[x for x in kinds if x != "StartReplica"])), ("there is no message", [V(IN, "no")])], always=[("the replica is started", K("StartReplica"))]),
        Row("stopped", ["DriverState::Stopped"], kind="write", never=[("another message comes", K(*[x for x in kinds if x != "StopReplica"])), ("there is no message", [V(IN, "no")]), ("it has stopped", [V("self.driver_state", "Stopped")])], always=[("the replica is stopped", K("StopReplica") + [V("self.driver_state", "Created", "Started")])])], "state of the driver")
    tab(ctx, R, f, place_events(f, "self.is_ephemeral"), [Row("kind of replica", [ARG("StartReplica") + ".is_ephemeral"], kind="write", always=[("the replica is started", K("StartReplica"))])], "kind of replica")
    tab(ctx, R, f, place_events(f, "self.lameduck_mode"), [Row("lameduck", ["true"], kind="write", never=[("another message comes", K(*[x for x in kinds if x != "EnterLameduckMode"])), ("there is no message", [V(IN, "no")])], always=[("it is asked for", K("EnterLameduckMode"))])], "lameduck mode")

def ordered(f, C):
    """Calls that put the collection into ascending order of the index."""
    out = []
    for n in f.calls(m={"sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"}):
        if not any(m([C, "take(%s)" % C], cv(f.argt(n, 0, f.env_of(p)))) for p in f.bynode[n.id]):
            continue
        want = "cbarg0(%).index" if "key" in n.d["cal"].m else "%cmp(cbarg0(%).index, cbarg1(%).index)"
        got = [cv(f.desc(("ret", x), None)) for x in n.d.get("cls", [])]
        if got and all(m(want, g) for g in got):
            out.append(n)
    return out
# ---------------------------------------------------------------- committed entries
def commit(ctx):
    """Committed entries reach the actor in order, each once, as they were proposed."""
    R = "commit"
    f = drv(ctx)
    app, conf = call_events(f, "Actor::on_apply_event"), call_events(f, "Raft::apply_config_change")
    arows, crows, irows, srows, mrows = [], [], [], [], []
    for nm, C, src in (("ready", f"{RD}.committed_entries", RD), ("light ready", f"{LRD}.committed_entries", LRD)):
        X = C + "[*]"
        NOD = lambda v: T([f"is_empty({X}.data)", f"is_empty(Entry::get_data({X}))"], v)
        TY = [f"Entry::get_entry_type({X})", f"{X}.entry_type"]
        D = [f"Message::decode(Entry::get_data({X}))", f"Message::decode({X}.data)"]
        full, cf, no = [NOD(False)], [NOD(False), V(TY, "EntryConfChange")], [NOD(False), V(TY, "EntryNormal")]
        IDs = [x + ".entry_id" for x in D]
        CTX = [f"ActorEventContext{{index={X}.index, owned={o}}}" for i in IDs for o in (f"({i}.replica_id Eq self.id)", f"(self.id Eq {i}.replica_id)", f"eq({i}.replica_id, self.id)")]
        EVT = [f"ActorEvent{{correlation_id={d}.entry_id.entry_id, contents={d}.entry_contents}}" for d in D]
        AP = f"Actor::on_apply_event(self.actor, ActorEventContext{{index={X}.index, %"
        CC = [f"Raft::apply_config_change(self.raft, {d})" for d in D]
        arows.append(Row(f"event of the {nm}", ["self.actor", CTX, EVT], never=[("the entry is empty", [NOD(True)]), ("the entry changes the cluster", [V(TY, "EntryConfChange")]), ("the entry is damaged", [V(D, "no")])],
              foreach=[("applied for every entry", C, no + [V(D, "ok"), V(IDs, "ok")])]))
        crows.append(Row(f"cluster change of the {nm}", ["self.raft", D], never=[("the entry is empty", [NOD(True)]), ("the entry is an event", [V(TY, "EntryNormal")]), ("the entry is damaged", [V(D, "no")])], foreach=[("applied for every entry", C, cf + [V(D, "ok")])]))
        irows.append(Row(f"entry of the {nm}", [f"{X}.index"], kind="write", foreach=[("kept for every entry", C, [])]))
        srows.append(Row(f"cluster of the {nm}", [CC], kind="write", never=[("the change fails", [V(CC, "no")])], foreach=[("kept for every change", C, cf + [V(D, "ok"), V(CC, "ok")])]))
        PUT = lambda F: f"OutMessage{{msg=Msg::DeliverAppMessage{{0=DeliverAppMessage{{correlation_id={F}.commands[*].correlation_id, message_header={F}.commands[*].header, message_payload={F}.commands[*].payload}}}}}}"
        mrows.append((nm, AP, C, PUT))
        # errors end the call
        for t, a in (("a cluster change that is damaged", cf + [V(D, "no")]), ("a cluster change that fails", cf + [V(D, "ok"), V(CC, "no")]), ("an event that is damaged", no + [V(D, "no")]), ("an event that the actor refuses", no + [V(D, "ok"), V(IDs, "ok"), V(AP, "no")])):
            hd = {p for h in loops(f, C) for p in f.bynode[h.id]}
            st = [t_ for h in loops(f, C) for _, t_ in loop_edges(f, h, C)[0]]
            r = live_from(f, st, a)
            ctx.check(bool(st) and not [p for p in oks(f) if p in r], R, f.entry_body.name, f"{nm}: {t}: the call goes on", key=f"{R}:{nm}:{t}")
        # in the order of the log
        sorts = ordered(f, C)
        ctx.check(bool(sorts), R, f.entry_body.name, f"the entries of the {nm} are not put in order", key=f"{R}:{nm}:sort")
        if sorts and hd:
            after(ctx, R, f, [p for n in sorts for p in f.bynode[n.id]], hd, f"the entries of the {nm} are applied before they are put in order")
        hp = set(hd)
        for es, what in ((app, "an event"), (conf, "a cluster change")):
            ps = [e.p for e in es if any(X in cv(x) for x in e.args)]
            r = f.reach(ps, avoid=hp, skip_start=True)
            ctx.check(not [p for p in ps if p in r], R, f.entry_body.name, f"{what} of the {nm} is applied twice", key=f"{R}:{nm}:twice:{what}")
    for n in f.calls(m={"rev", "reverse", "dedup", "truncate", "retain", "take_while", "skip", "step_by", "pop", "drain", "swap_remove", "filter"}):
        txt = [cv(f.argt(n, 0, f.env_of(p))) for p in f.bynode[n.id]]
        ctx.check(not any("committed_entries" in x for x in txt), R, f.where(n), f"the committed entries are changed: {n.d['cal'].m}", key=f"{R}:changed")
    arows.append(Row("event of an ephemeral replica", ["self.actor", "ActorEventContext{index=0, owned=true}", "Actor::on_process_command(%).event"], never=[("the replica is replicated", [REPL])]))
    tab(ctx, R, f, app, arows, "application")
    tab(ctx, R, f, conf, crows, "cluster change")
    S = f"take({RD}.snapshot)"
    irows.append(Row("restored snapshot", [f"{S}.metadata.index"], kind="write", never=[("there is no snapshot", [EMPTY(S, True)])], always=[("a snapshot is restored", READY + [EMPTY(S, False)])]))
    srows.append(Row("restored snapshot", [f"{S}.metadata.conf_state"], kind="write", never=[("there is no snapshot", [EMPTY(S, True)])], always=[("a snapshot is restored", READY + [EMPTY(S, False)])]))
    # the first leader starts with its own configuration (see start)
    first = first_progress(f, "self.raft_progress.applied_index") + first_progress(f, "self.raft_progress.config_state")
    fn = {e.n.id for e in first}
    tab(ctx, R, f, [e for e in place_events(f, "self.raft_progress.applied_index") if e.n.id not in fn], irows, "progress")
    tab(ctx, R, f, [e for e in place_events(f, "self.raft_progress.config_state") if e.n.id not in fn], srows, "cluster")
    for e in first + place_events(f, "self.raft_progress"):
        ctx.check(e.p not in live_from(f, None, K(*[x for x in variants(ctx, "runtime::endpoint::in_message::Msg") if x != "StartReplica"])) and e.p not in live_from(f, None, [V(IN, "no")]), R, f.where(e.n), f"the progress is changed: {e.text()[:160]}", key=f"{R}:progress-changed")
    for e in place_events(f, ["self.raft_progress.config_state.%"]):
        ctx.check(e.p not in live_from(f, None, [V(IN, "no")]), R, f.where(e.n), f"the cluster is changed: {e.text()[:160]}", key=f"{R}:cluster-changed")
    # the commands of the actor leave the replica
    for nm, AP, C, PUT in mrows:
        coll = AP + ".commands"
        ps = [e.p for e in grown(f, "self.messages") if m(PUT(AP), cv(e.args[-1]))]
        ctx.check(bool(ps), R, f.entry_body.name, f"the commands of an event of the {nm} are lost", key=f"{R}:{nm}:commands")
        okk, why = foreach_states(f, ps, coll, [], until=oks(f))
        ctx.check(okk, R, f.entry_body.name, f"a command of an event of the {nm} is lost: {why}"[:500], key=f"{R}:{nm}:commands-lost")

# ---------------------------------------------------------------- ready
def persist(ctx):
    """State is stored before Raft advances and before anything leaves the replica."""
    R = "persist"
    f = drv(ctx)
    inactive = [("there is no Raft node", [T(INIT, False)]), ("nothing is ready", [T(HASR, False)]), ("the replica is ephemeral", [EPH])]
    S, E_ = f"take({RD}.snapshot)", f"take({RD}.entries)"
    HARD = RD + ".hard_state"
    snap, nosnap = [EMPTY(S, False)], [EMPTY(S, True)]
    ent, noent = [EMPTY(E_, False)], [EMPTY(E_, True)]
    ce = lambda n: call_events(f, n)
    tab(ctx, R, f, ce("Raft::get_ready"), [Row("ready taken", ["self.raft"], never=inactive, always=[("something is ready", READY)])], "ready")
    tab(ctx, R, f, ce("Store::set_hard_state"), [Row("hard state", [STORE, HARD], never=inactive + [("it is unchanged", [V(HARD, "no")])], always=[("it has changed", READY + [V(HARD, "ok")])])], "stored")
    tab(ctx, R, f, ce("Store::apply_snapshot"), [Row("snapshot", [STORE, S], never=inactive + [("there is none", nosnap)], always=[("there is one", READY + snap)])], "stored")
    LOAD = f"Actor::on_load_snapshot(self.actor, Snapshot::take_data({S}))"
    tab(ctx, R, f, ce("Actor::on_load_snapshot"), [Row("snapshot", ["self.actor", f"Snapshot::take_data({S})"], never=inactive + [("there is none", nosnap), ("it is not stored", snap + [V(f"Store::apply_snapshot({STORE}, {S})", "no")])], always=[("there is one", READY + snap)])], "actor")
    tab(ctx, R, f, ce("Store::append_entries"), [Row("entries", [STORE, E_], never=inactive + [("there are none", noent)], always=[("there are some", READY + ent)])], "stored")
    tab(ctx, R, f, ce("Raft::advance_ready"), [Row("ready advanced", ["self.raft", RD], never=inactive + [("the entries are not stored", ent + [V(f"Store::append_entries({STORE}, {E_})", "no")]), ("the snapshot is not stored", snap + [V(f"Store::apply_snapshot({STORE}, {S})", "no")]), ("the actor refuses the snapshot", snap + [V(LOAD, "no")])], always=[("something was ready", READY)])], "ready")
    tab(ctx, R, f, ce("Raft::advance_apply"), [Row("application acknowledged", ["self.raft"], never=inactive, always=[("something was ready", READY)])], "ready")
    for n in ("Raft::get_ready", "Store::set_hard_state", "Store::apply_snapshot", "Actor::on_load_snapshot", "Store::append_entries", "Raft::advance_ready", "Raft::advance_apply"):
        once(ctx, R, f, ce(n), n)
    adv, ack = states(ce("Raft::advance_ready")), states(ce("Raft::advance_apply"))
    after(ctx, R, f, states(ce("Store::append_entries")), adv, "Raft advances before the entries are stored", ent)
    after(ctx, R, f, states(ce("Store::set_hard_state")), adv, "Raft advances before the hard state is stored", [V(HARD, "ok")])
    after(ctx, R, f, states(ce("Store::apply_snapshot")), adv, "Raft advances before the snapshot is stored", snap)
    after(ctx, R, f, states(ce("Actor::on_load_snapshot")), adv, "Raft advances before the actor has the snapshot", snap)
    after(ctx, R, f, states(ce("Store::apply_snapshot")), states(ce("Store::append_entries")), "entries are stored before the snapshot they follow", snap)
    for e in call_events(f, "Actor::on_apply_event"):
        t = e.text()
        if any(RD + ".committed_entries" in cv(x) for x in e.args):
            after(ctx, R, f, states(ce("Actor::on_load_snapshot")), [e.p], "entries are applied before the snapshot they follow", snap)
        if "advance_ready" in t or "get_ready" in t:
            r = f.reach(ack, skip_start=True)
            ctx.check(e.p not in r, R, f.where(e.n), "entries are acknowledged before they are applied", key=f"{R}:ack-first")
    for nm, C in (("ready", RD + ".committed_entries"), ("light ready", LRD + ".committed_entries")):
        hd = [p for h in loops(f, C) for p in f.bynode[h.id]]
        after(ctx, R, f, hd, ack, f"the application is acknowledged before the entries of the {nm} are applied")
    # changes to the store are only those
    for e in call_events(f, "Store::%"):
        ctx.check(e.n.d["cal"].m in ("set_hard_state", "apply_snapshot", "append_entries", "should_snapshot", "create_snapshot", "latest_snapshot_size"), R, f.where(e.n), f"the store is used for {e.n.d['cal'].m}", key=f"{R}:store")
    # nothing leaves before
    out = ce("Host::send_messages")
    tab(ctx, R, f, out, [Row("messages", [HOST, "take(self.messages)"], never=[("the entries are not stored", READY + ent + [V(f"Store::append_entries({STORE}, {E_})", "no")])], always=[("there is no message", [V(IN, "no")])] + [(f"{k} is processed", K(k)) for k in variants(ctx, "runtime::endpoint::in_message::Msg")])], "messages to the host")
    once(ctx, R, f, out, "sending messages to the host")
    r = f.reach(states(out), skip_start=True)
    for e in call_events(f, ["Raft::%", "Store::%", "Actor::%", "CommunicationModule::%", "SnapshotProcessor::%", "SnapshotSender::%", "SnapshotReceiver::%"]):
        ctx.check(e.p not in r, R, f.where(e.n), f"messages leave before {e.text()[:160]}", key=f"{R}:sent-first")
    for e in call_events(f, "Host::%"):
        ctx.check(e.n.d["cal"].m in ("send_messages", "public_signing_key"), R, f.where(e.n), f"the host is used for {e.n.d['cal'].m}", key=f"{R}:host")
    for e in place_events(f, "self.messages"):
        ctx.check(e.kind == "grow" or e.kind == "shrink" and e.p not in f.reach(states(out), skip_start=True) and e.n.d["cal"].m in ("take", "append", "extend"), R, f.where(e.n), f"messages are lost: {e.text()[:160]}", key=f"{R}:lost")
    for n in altered(f, ["take(self.messages)", "self.messages"], ("drain", "append")):
        ctx.bad(R, f.where(n), f"messages are dropped or reordered: {n.d['cal'].m}", key=f"{R}:altered:{n.d['cal'].m}")
    take = [e for e in place_events(f, "self.messages", ("shrink",)) if e.n.d["cal"].m == "take"]
    once(ctx, R, f, take, "taking the messages")
    r = f.reach(states(take), skip_start=True)
    for e in grown(f, "self.messages"):
        ctx.check(e.p not in r, R, f.where(e.n), f"a message comes too late: {e.text()[:160]}", key=f"{R}:late")

def relay(ctx):
    """Every message of Raft goes to its recipient over the secure channel."""
    R = "relay"
    f = drv(ctx)
    out = call_events(f, "CommunicationModule::process_out_message")
    rows, srows = [], []
    for nm, C in (("ready", RD + ".messages"), ("persisted", RD + ".persisted_messages"), ("light ready", LRD + ".messages")):
        X = C + "[*]"
        TY = [X + ".msg_type", f"Message::msg_type({X})"]
        SNAP, OTHER = V(TY, "MsgSnapshot"), [x for x in variants(ctx, "eraftpb::MessageType") if x != "MsgSnapshot"]
        BODY = f"DeliverSystemMessage{{recipient_replica_id={X}.to, sender_replica_id=self.id, %payload=Payload{{contents=Message::encode_to_vec({X}), %}}%}}"
        rows.append(Row(f"message of the {nm}", ["self.communication", f"OutgoingMessage::DeliverSystemMessage{{0={BODY}, 1=Message::msg_type({X})}}"], never=[("it has a snapshot", [SNAP])], foreach=[("sent for each", C, [V(TY, *OTHER)])]))
        srows.append(Row(f"snapshot of the {nm}", [X], kind="grow", never=[("it has no snapshot", [V(TY, *OTHER)])], foreach=[("kept for each", C, [SNAP])]))
        hd = {p for h in loops(f, C) for p in f.bynode[h.id]}
        ps = [e.p for e in out if any(X in cv(x) for x in e.args)] + [e.p for e in place_events(f, "self.snapshots", ("grow",)) if any(X in cv(x) for x in e.args)]
        r = f.reach(ps, avoid=hd, skip_start=True)
        ctx.check(not [p for p in ps if p in r], R, f.entry_body.name, f"a message of the {nm} is sent twice", key=f"{R}:{nm}:twice")
        for n in f.calls(m={"rev", "reverse", "sort", "sort_by", "sort_by_key", "retain", "filter", "skip", "take_while", "dedup"}):
            ctx.check(not any(m(C + "%", cv(f.argt(n, 0, f.env_of(p)))) for p in f.bynode[n.id]), R, f.where(n), f"the messages of the {nm} are changed", key=f"{R}:{nm}:changed")
        ctx.check(bool(hd) and not [p for p in oks(f) if p in live_from(f, None, READY, avoid=hd)], R, f.entry_body.name, f"the messages of the {nm} are not sent", key=f"{R}:{nm}:skipped")
    rows.append(Row("answer to a snapshot chunk", ["self.communication", "OutgoingMessage::DeliverSnapshotResponse%"]))
    SND = "SnapshotProcessor::mut_processor(self.snapshot, self.instant)"
    rows.append(Row("snapshot chunk", ["self.communication", lambda e, t: m(["new()[*]", "OutgoingMessage::DeliverSnapshotRequest{0=SnapshotSender::next_request(%)}"], cv(t))]))
    tab(ctx, R, f, out, rows, "messages to replicas")
    tab(ctx, R, f, place_events(f, "self.snapshots", ("grow", "write")), srows, "snapshots to send")
    TK = call_events(f, "CommunicationModule::take_out_messages")
    gm = [e for e in grown(f, "self.messages") if m("%CommunicationModule::take_out_messages(self.communication)%", cv(e.args[-1]))]
    tab(ctx, R, f, TK, [Row("messages taken", ["self.communication"], always=[("there is no message", [V(IN, "no")])])], "messages of the channels")
    ctx.check(bool(gm) and not [p for p in oks(f) if p in live_from(f, None, [V(IN, "no")], avoid=set(states(gm)))], R, f.entry_body.name, "the messages of the channels are lost", key=f"{R}:channels")
    r = f.reach(states(TK), skip_start=True)
    for e in out:
        ctx.check(e.p not in r, R, f.where(e.n), "a message comes after the channels were emptied", key=f"{R}:late")

# ---------------------------------------------------------------- actor
def actor(ctx):
    """Commands and events of the actor are passed on completely and unchanged."""
    R = "actor"
    f = drv(ctx)
    kinds = variants(ctx, "runtime::endpoint::in_message::Msg")
    A = ARG("DeliverAppMessage")
    CMD = f"ActorCommand{{correlation_id={A}.correlation_id, header={A}.message_header, payload={A}.message_payload}}"
    pc = call_events(f, "Actor::on_process_command")
    others = [x for x in kinds if x not in ("DeliverAppMessage",)]
    tab(ctx, R, f, pc, [
        Row("command", ["self.actor", CMD], never=[("another message comes", K(*others)), ("there is no message", [V(IN, "no")])], always=[("a command comes", K("DeliverAppMessage") + [UP])]),
        Row("progress", ["self.actor", "None"], never=[("a command comes", K("DeliverAppMessage"))], always=[("there is no message", [V(IN, "no"), UP])] + [(f"{k} was processed", K(k) + [UP]) for k in others if k not in ("StopReplica", "StartReplica")])], "actor")
    once(ctx, R, f, pc, "processing a command")
    tick = call_events(f, "CommunicationModule::make_tick")
    tab(ctx, R, f, tick, [Row("tick", ["self.communication"], always=[("the replica runs", [V(IN, "no"), UP])])], "channels")
    once(ctx, R, f, tick, "the tick of the channels")
    prop, msgs = place_events(f, "self.core.proposals"), grown(f, "self.messages")
    for nm, P_ in (("command", f"Actor::on_process_command(self.actor, {CMD})"), ("progress", "Actor::on_process_command(self.actor, None)")):
        base = K("DeliverAppMessage") if nm == "command" else [V(IN, "no")]
        AP = f"Actor::on_apply_event(self.actor, ActorEventContext{{index=0, owned=true}}, {P_}.event)"
        EN = f"Message::encode_to_vec(Entry{{entry_id=EntryId{{replica_id=self.id, entry_id={P_}.event.correlation_id}}, entry_contents={P_}.event.contents}})"
        ev = [V(P_ + ".event", "ok"), V(P_, "ok")]
        tab(ctx, R, f, [e for e in call_events(f, "Actor::on_apply_event") if m(f"{P_}.event", cv(e.args[-1]))], [Row(f"event after a {nm}", ["self.actor", "ActorEventContext{index=0, owned=true}", P_ + ".event"], never=[("the replica is replicated", [REPL]), ("there is no event", [V(P_ + ".event", "no")])], always=[("an ephemeral replica has an event", base + [UP, EPH] + ev)])], "ephemeral replica")
        tab(ctx, R, f, [e for e in prop if e.kind != "shrink" and any(P_ in cv(x) for x in e.args)], [Row(f"proposal after a {nm}", [EN], kind="grow", never=[("the replica is ephemeral", [EPH]), ("there is no event", [V(P_ + ".event", "no")])], always=[("a replica has an event", base + [UP, REPL] + ev)])], "proposals")
        fails(ctx, R, f, f"the actor refuses a {nm}", base + [UP, V(P_, "no")])
        fails(ctx, R, f, f"the actor refuses its event after a {nm}", base + [UP, EPH] + ev + [V(AP, "no")])
        for what, F in (("commands", P_), ("commands of an event", AP)):
            PUT = f"OutMessage{{msg=Msg::DeliverAppMessage{{0=DeliverAppMessage{{correlation_id={F}.commands[*].correlation_id, message_header={F}.commands[*].header, message_payload={F}.commands[*].payload}}}}}}"
            ps = [e.p for e in msgs if m(PUT, cv(e.args[-1]))]
            okk, why = foreach_states(f, ps, F + ".commands", [], until=oks(f))
            ctx.check(bool(ps) and okk, R, f.entry_body.name, f"{nm}: {what} of the actor are lost: {why}"[:500], key=f"{R}:{nm}:{what}")
            hd = {p for h in loops(f, F + ".commands") for p in f.bynode[h.id]}
            ctx.check(not [p for p in f.reach(ps, avoid=hd, skip_start=True) if p in ps], R, f.entry_body.name, f"{nm}: {what} are sent twice", key=f"{R}:{nm}:{what}:twice")
    for e in prop:
        ctx.check(e.kind == "grow" or e.kind == "shrink" and e.n.d["cal"].m == "take", R, f.where(e.n), f"proposals are lost: {e.text()[:160]}", key=f"{R}:proposals-lost")
    for n in altered(f, ["take(self.core.proposals)", "self.core.proposals"], ("drain",)):
        ctx.bad(R, f.where(n), f"proposals are dropped or reordered: {n.d['cal'].m}", key=f"{R}:proposals-altered:{n.d['cal'].m}")
    # proposals
    PR = "self.core.proposals[*]"
    MP = f"Raft::make_proposal(self.raft, {PR})"
    mp = call_events(f, "Raft::make_proposal")
    tab(ctx, R, f, mp, [Row("proposal", ["self.raft", PR], never=[("the replica is ephemeral", [EPH])], foreach=[("made for each", "self.core.proposals", [])])], "Raft")
    hd = {p for h in loops(f, "self.core.proposals") for p in f.bynode[h.id]}
    ctx.check(bool(hd) and not [p for p in oks(f) if p in live_from(f, None, [REPL, V(IN, "no")], avoid=hd)], R, f.entry_body.name, "proposals are not made", key=f"{R}:proposals")
    ctx.check(not [p for p in f.reach(states(mp), avoid=hd, skip_start=True) if p in set(states(mp))], R, f.entry_body.name, "a proposal is made twice", key=f"{R}:proposal-twice")
    r = f.reach(list(hd), skip_start=True)
    for e in prop:
        ctx.check(e.kind != "grow" or e.p not in r, R, f.where(e.n), "an event comes after the proposals were made", key=f"{R}:proposal-late")
    st = [t for h in loops(f, "self.core.proposals") for _, t in loop_edges(f, h, "self.core.proposals")[0]]
    errs = variants(ctx, "Error", "raft")
    DROP, ERR = [V(MP, "no"), V(MP + "!err", "ProposalDropped")], [V(MP, "no"), V(MP + "!err", *[x for x in errs if x != "ProposalDropped"])]
    r = live_from(f, st, DROP, avoid=set())
    nxt = live_from(f, st, DROP, avoid=hd)
    ctx.check([p for p in r if p in hd] and not [p for p in f.ends() if p in nxt], R, f.entry_body.name, "a dropped proposal ends the call", key=f"{R}:dropped")
    for n in panics(f):
        ctx.check(not [p for p in f.bynode[n.id] if p in nxt], R, f.where(n), "a dropped proposal stops the replica", key=f"{R}:dropped-panic")
    r = live_from(f, st, ERR)
    ctx.check(not [p for p in oks(f) if p in r], R, f.entry_body.name, "a broken Raft node goes on", key=f"{R}:proposal-error")
def panics(f):
    return [n for n in f.nodes if n.kind == "panic" and n.id in f.reached]

# ---------------------------------------------------------------- snapshots
MP_ = "SnapshotProcessor::mut_processor(self.snapshot, self.instant)"
SND, RCV = MP_ + ".Sender.0", MP_ + ".Receiver.0"
SENDER, RECEIVER = V(MP_, "Sender"), V(MP_, "Receiver")
IDLE = [V(IN, "no"), UP, REPL]
def snap(ctx):
    """Snapshots are made, sent and installed as the components ask for it."""
    R = "snap"
    f = drv(ctx)
    ce = lambda n: call_events(f, n)
    eph = ("the replica is ephemeral", [EPH])
    # made
    IDX, CF = "self.raft_progress.applied_index", "self.raft_progress.config_state"
    WANT = [f"%should_snapshot({STORE}, {IDX}, {CF})"]
    SAVE = "Actor::on_save_snapshot(self.actor)"
    CREATE = f"Store::create_snapshot({STORE}, {IDX}, {CF}, {SAVE})"
    tab(ctx, R, f, ce("Store::should_snapshot"), [Row("asked", [STORE, IDX, CF], never=[eph, ("there is no Raft node", [T(INIT, False)])], always=[("Raft has advanced", [REPL, RUN, T(INIT, True)])])], "need for a snapshot")
    tab(ctx, R, f, ce("Store::create_snapshot"), [Row("made", [STORE, IDX, CF, SAVE], never=[eph, ("none is needed", [T(WANT, False)]), ("there is no Raft node", [T(INIT, False)])], always=[("one is needed", [REPL, RUN, T(INIT, True), T(WANT, True), V(SAVE, "ok")])])], "snapshot")
    once(ctx, R, f, ce("Store::create_snapshot"), "making a snapshot")
    fails(ctx, R, f, "the actor refuses to save a snapshot", [REPL, RUN, T(INIT, True), T(WANT, True), V(SAVE, "no")])
    fails(ctx, R, f, "the snapshot cannot be stored", [REPL, RUN, T(INIT, True), T(WANT, True), V(SAVE, "ok"), V(CREATE, "no")])
    asked = states(ce("Store::should_snapshot"))
    r = f.reach(asked, skip_start=True)
    for e in ce("Actor::on_apply_event") + ce("Raft::apply_config_change") + ce("Raft::advance_ready"):
        if e.n.d["cal"].m == "on_apply_event" and not any("committed_entries" in cv(x) for x in e.args):
            continue
        ctx.check(e.p not in r, R, f.where(e.n), f"the need for a snapshot is decided before {e.n.d['cal'].m}", key=f"{R}:early")
    # progress of transfers
    DONE = f"SnapshotSender::try_complete({SND})"
    GOT = f"SnapshotReceiver::try_complete({RCV})"
    PC = "SnapshotProcessor::process_cluster_change(self.snapshot, self.raft_state.leader_replica_id, self.raft_state.leader_term, self.raft_state.committed_cluster_config)"
    tab(ctx, R, f, ce("SnapshotSender::try_complete"), [Row("sender asked", [SND], never=[eph, ("it receives", [RECEIVER])], always=[("it sends", IDLE + [SENDER])])], "progress")
    tab(ctx, R, f, ce("SnapshotReceiver::try_complete"), [Row("receiver asked", [RCV], never=[eph, ("it sends", [SENDER])], always=[("it receives", IDLE + [RECEIVER])])], "progress")
    tab(ctx, R, f, ce("Raft::report_snapshot"), [
        Row("completed transfer", ["self.raft", DONE + ".0", DONE + ".1"], never=[("none is complete", [V(DONE, "no")]), eph], always=[("one is complete", IDLE + [SENDER, V(DONE, "ok")])]),
        Row("cancelled transfer", ["self.raft", PC + "[*].0", PC + "[*].1"], never=[eph], foreach=[("reported for each", PC, [])]),
        Row("refused transfer", ["self.raft", "self.snapshots[*].to", "SnapshotStatus::Failure"], never=[("it sends", [SENDER]), eph], foreach=[("reported for each", "self.snapshots", IDLE + [RECEIVER])])], "Raft is told about a transfer")
    steps = [e for e in ce("Raft::make_step") if GOT in cv(e.args[-1])]
    SNAPSHOT = GOT + ".1"
    tab(ctx, R, f, steps, [Row("installed", ["self.raft", lambda e, t: "msg_type=MessageType::MsgSnapshot" in cv(t) and f"from={GOT}.0" in cv(t) and "to=self.id" in cv(t)], never=[("no snapshot is complete", [V(GOT, "no")]), ("the snapshot is damaged", [V(GOT + "?", "no")]), eph], always=[("a snapshot is complete", IDLE + [RECEIVER, V(GOT, "ok"), V(GOT + "?", "ok")])])], "received snapshot")
    once(ctx, R, f, steps, "installing a received snapshot")
    sets = [n for n in f.calls(m={"set_snapshot"}) if any(m(SNAPSHOT, cv(f.argt(n, 1, f.env_of(p)))) for p in f.bynode[n.id])]
    direct = [e.p for e in steps if f"snapshot={SNAPSHOT}" in cv(e.args[-1])]
    pre = {p for n in sets for p in f.bynode[n.id]}
    r = live_from(f, None, (), avoid=pre)
    ctx.check(bool(steps) and not [e for e in steps if e.p in r and e.p not in direct], R, f.entry_body.name, "a message without the received snapshot is installed", key=f"{R}:install-content")
    # transfers started and continued
    sn = "self.snapshots[*]"
    tab(ctx, R, f, ce("SnapshotSender::start"), [Row("started", [SND, sn + ".to", sn + ".snapshot"], never=[eph, ("it receives", [RECEIVER])], foreach=[("started for each", "self.snapshots", IDLE + [SENDER])])], "transfers")
    hd = {p for h in loops(f, "self.snapshots") for p in f.bynode[h.id]}
    ctx.check(bool(hd) and not [p for p in oks(f) if p in live_from(f, None, [V(IN, "no"), REPL, SENDER], avoid=hd)], R, f.entry_body.name, "transfers are not started", key=f"{R}:start-skipped")
    NEXT = f"SnapshotSender::next_request({SND})"
    tab(ctx, R, f, ce("SnapshotSender::next_request"), [Row("next chunk", [SND], never=[eph, ("it receives", [RECEIVER])], always=[("it sends", IDLE + [SENDER])])], "transfers")
    nx = set(states(ce("SnapshotSender::next_request")))
    # after a chunk, the next one is asked for, and the chunk is sent
    OUT = f"OutgoingMessage::DeliverSnapshotRequest{{0={NEXT}}}"
    good = lambda t: any(m(OUT, cv(x)) for x in alts(t))
    from rules_comm import order
    put = [q for n in f.calls(m={"push", "push_back"}) for q in f.bynode[n.id] if good(f.argt(n, 1, f.env_of(q)))]
    outs = ce("CommunicationModule::process_out_message")
    directs = [e.p for e in outs if good(e.args[-1])]
    relays = [e for e in outs if m("new()[*]", cv(e.args[-1]))]
    keep = set(put) | set(directs)
    st = [q for p in nx for q, fs in f.psucc[p] or []]
    r = live_from(f, st, [V(NEXT, "ok")], avoid=keep)
    ctx.check(bool(keep) and not [p for p in oks(f) if p in r] and not (r & nx), R, f.entry_body.name, "a chunk of a snapshot is lost", key=f"{R}:chunk-lost")
    r = live_from(f, list(keep), (), avoid=nx | set(states(relays)))
    ctx.check(not [p for p in oks(f) if p in r], R, f.entry_body.name, "not all chunks that may be sent are asked for", key=f"{R}:chunks")
    if put:
        lists = {x for n in f.calls(m={"push", "push_back"}) for q in f.bynode[n.id] if q in set(put) for x in alts(f.argt(n, 0, f.env_of(q)))}
        for n in f.calls(m=REORDER - {"drain", "take"}):
            if n.d["cal"].body is None and f.nargs(n) and any(x in lists for q in f.bynode[n.id] for x in alts(f.argt(n, 0, f.env_of(q)))):
                ctx.bad(R, f.where(n), f"chunks are dropped or reordered: {n.d['cal'].m}", key=f"{R}:chunks-altered:{n.d['cal'].m}")
        hd = {p for h in loops(f, "new()") for p in f.bynode[h.id]}
        ctx.check(bool(hd) and not [p for p in oks(f) if p in live_from(f, put, (), avoid=hd)], R, f.entry_body.name, "chunks of a snapshot are not sent", key=f"{R}:chunks-sent")
        okk, why = foreach_states(f, states(relays), "new()", [], until=oks(f))
        ctx.check(okk and bool(relays), R, f.entry_body.name, f"a chunk of a snapshot is not sent: {why}"[:500], key=f"{R}:chunk-sent")
        ctx.check(not [p for p in f.reach(states(relays), avoid=hd, skip_start=True) if p in set(states(relays))], R, f.entry_body.name, "a chunk is sent twice", key=f"{R}:chunk-twice")
    ctx.check(not [p for p in f.reach(put, avoid=nx, skip_start=True) if p in set(put)], R, f.entry_body.name, "a chunk is kept twice", key=f"{R}:chunk-kept-twice")
    # the transfers start after Raft has advanced
    for e in place_events(f, "self.snapshots", ("grow",)):
        ctx.check(e.p not in f.reach(list(nx), skip_start=True), R, f.where(e.n), "a snapshot message comes too late", key=f"{R}:late")
    for e in place_events(f, "self.snapshots"):
        ctx.check(e.kind == "grow" or e.kind == "shrink" and e.n.d["cal"].m in ("take", "drain"), R, f.where(e.n), f"snapshot messages are lost: {e.text()[:120]}", key=f"{R}:snapshots-lost")
    for n in altered(f, ["take(self.snapshots)", "self.snapshots"], ("drain",)):
        ctx.bad(R, f.where(n), f"snapshot messages are dropped or reordered: {n.d['cal'].m}", key=f"{R}:snapshots-altered:{n.d['cal'].m}")

# ---------------------------------------------------------------- messages of peers
def step(ctx):
    """A message of a peer has effect only after the secure channel accepted it."""
    R = "step"
    f = drv(ctx)
    kinds = variants(ctx, "runtime::endpoint::in_message::Msg")
    ce = lambda n: call_events(f, n)
    P = lambda k: f"CommunicationModule::process_in_message(self.communication, Msg::{k}{{0={ARG(k)}}})"
    D = lambda k: f"{P(k)}.{k}.0"
    chan = ["DeliverSystemMessage", "DeliverSnapshotRequest", "DeliverSnapshotResponse", "SecureChannelHandshake"]
    tab(ctx, R, f, ce("CommunicationModule::process_in_message"), [
        Row(k, ["self.communication", f"Msg::{k}{{0={ARG(k)}}}"], never=[("another message comes", K(*[x for x in kinds if x != k])), ("there is no message", [V(IN, "no")])], always=[("it comes", K(k) + [UP, REPL])]) for k in chan], "secure channel")
    once(ctx, R, f, ce("CommunicationModule::process_in_message"), "the secure channel sees the message")
    S = D("DeliverSystemMessage")
    MSG = [f"Message::decode({S}.payload.contents)"]
    FROM = [f"Message::get_from({x})" for x in MSG] + [f"{x}.from" for x in MSG]
    bad = lambda k: [("the channel refuses it", [V(P(k), "no")]), ("the channel keeps it", [V(P(k) + "?", "no")]), ("it is another kind", [V(P(k) + "??", *[x for x in kinds if x != k])]), ("another message comes", K(*[x for x in kinds if x != k])), ("there is no message", [V(IN, "no")]), ("the replica does not run", [DOWN]), ("the replica is ephemeral", [EPH])]
    fine = lambda k: K(k) + [UP, REPL, V(P(k), "ok"), V(P(k) + "?", "ok"), V(P(k) + "??", k)]
    foreign = [("it is addressed to another replica", [REL("self.id", "<>", f"{S}.recipient_replica_id")]), ("it is not from the authenticated sender", [REL(FROM, "<>", f"{S}.sender_replica_id")]), ("it is damaged", [V(MSG, "no")])]
    GOOD = [REL("self.id", "=", f"{S}.recipient_replica_id"), REL(FROM, "=", f"{S}.sender_replica_id"), V(MSG, "ok")]
    steps = [e for e in ce("Raft::make_step") if "SnapshotReceiver::try_complete" not in cv(e.args[-1])]
    tab(ctx, R, f, steps, [Row("Raft message", ["self.raft", MSG], never=bad("DeliverSystemMessage") + foreign, always=[("it is valid", fine("DeliverSystemMessage") + GOOD + [V(f"{S}.payload", "ok")])])], "Raft")
    once(ctx, R, f, steps, "a Raft message")
    STEP = [f"Raft::make_step(self.raft, {x})" for x in MSG]
    errs, LOST = variants(ctx, "Error", "raft"), ("StepPeerNotFound", "ProposalDropped")
    take = fine("DeliverSystemMessage") + GOOD + [V(f"{S}.payload", "ok"), V(STEP, "no")]
    for x in errs:
        if x not in LOST:
            fails(ctx, R, f, f"Raft fails on a message with {x}", take + [V([y + "!err" for y in STEP], x)])
    for x in LOST:
        rr = live_from(f, None, take + [V([y + "!err" for y in STEP], x)])
        ctx.check(any(p in rr for p in oks(f)), R, f.entry_body.name, f"a message that Raft refuses with {x} terminates the replica", key=f"{R}:refused:{x}")
    for t, a in foreign:
        rr = live_from(f, None, fine("DeliverSystemMessage") + [V(f"{S}.payload", "ok")] + a)
        ctx.check(any(p in rr for p in oks(f)), R, f.entry_body.name, f"a message fails although {t}", key=f"{R}:foreign:{t}")
        # the driver does not panic in handling the message
        dec = {p for e in ce("CommunicationModule::process_in_message") for p in [e.p]}
        proc = set(states(ce("Actor::on_process_command")))
        rr = live_from(f, list(dec), fine("DeliverSystemMessage") + [V(f"{S}.payload", "ok")] + a, avoid=proc)
        ctx.check(not [n for n in panics(f) if any(p in rr for p in f.bynode[n.id])], R, f.entry_body.name, f"the replica panics although {t}", key=f"{R}:foreign-panic:{t}")
    for k in chan:
        fails(ctx, R, f, f"the channel refuses a {k}", K(k) + [UP, REPL, V(P(k), "no")])
    for k in chan[:3]:
        rr = live_from(f, None, K(k) + [UP, REPL, V(P(k), "ok"), V(P(k) + "?", "no")])
        ctx.check(any(p in rr for p in oks(f)), R, f.entry_body.name, f"a {k} that the channel keeps fails the call", key=f"{R}:kept:{k}")
    # snapshot chunks
    Q, A_ = D("DeliverSnapshotRequest"), D("DeliverSnapshotResponse")
    RQ, UQ = f"SnapshotReceiver::process_request({RCV}, {Q})", f"SnapshotSender::process_unexpected_request({SND}, {Q})"
    tab(ctx, R, f, ce("SnapshotReceiver::process_request"), [Row("chunk", [RCV, Q], never=bad("DeliverSnapshotRequest") + [("it sends", [SENDER])], always=[("it receives", fine("DeliverSnapshotRequest") + [RECEIVER])])], "receiver")
    tab(ctx, R, f, ce("SnapshotSender::process_unexpected_request"), [Row("unexpected chunk", [SND, Q], never=bad("DeliverSnapshotRequest") + [("it receives", [RECEIVER])], always=[("it sends", fine("DeliverSnapshotRequest") + [SENDER])])], "sender")
    answers = [e for e in ce("CommunicationModule::process_out_message") if "OutgoingMessage::DeliverSnapshotResponse" in cv(e.args[-1])]
    tab(ctx, R, f, answers, [
        Row("answer of the receiver", ["self.communication", f"OutgoingMessage::DeliverSnapshotResponse{{0={RQ}}}"], never=[("it sends", [SENDER])], always=[("it receives", fine("DeliverSnapshotRequest") + [RECEIVER])]),
        Row("answer of the sender", ["self.communication", f"OutgoingMessage::DeliverSnapshotResponse{{0={UQ}}}"], never=[("it receives", [RECEIVER])], always=[("it sends", fine("DeliverSnapshotRequest") + [SENDER])])], "answers to chunks")
    once(ctx, R, f, answers, "answering a chunk")
    F = ARG("DeliverSnapshotFailure")
    tab(ctx, R, f, ce("SnapshotSender::process_response"), [
        Row("response", [SND, A_ + ".sender_replica_id", A_ + ".delivery_id", A_], never=bad("DeliverSnapshotResponse") + [("it receives", [RECEIVER])], always=[("it sends", fine("DeliverSnapshotResponse") + [SENDER])]),
        Row("failure", [SND, F + ".sender_replica_id", F + ".delivery_id", "Err{0=SnapshotError::FailedDelivery}"], never=[("it receives", [RECEIVER]), ("another message comes", K(*[x for x in kinds if x != "DeliverSnapshotFailure"])), ("the replica does not run", [DOWN]), ("the replica is ephemeral", [EPH])], always=[("it sends", K("DeliverSnapshotFailure") + [UP, REPL, SENDER])])], "responses")
    once(ctx, R, f, ce("SnapshotSender::process_response"), "a response")
    for k, a in (("DeliverSnapshotResponse", fine("DeliverSnapshotResponse")), ("DeliverSnapshotFailure", K("DeliverSnapshotFailure") + [UP, REPL])):
        rr = live_from(f, None, a + [RECEIVER])
        ctx.check(any(p in rr for p in oks(f)), R, f.entry_body.name, f"an unexpected {k} fails the call", key=f"{R}:unexpected:{k}")

# ---------------------------------------------------------------- time
def time(ctx):
    """Time never goes back, and Raft only sees ticks of the configured period."""
    R = "time"
    f = drv(ctx)
    ce = lambda n: call_events(f, n)
    tab(ctx, R, f, place_events(f, "self.instant"), [Row("instant", [["max(self.instant, $3)", "max($3, self.instant)"]], kind="write", always=[("the call succeeds", [])])], "time")
    tab(ctx, R, f, place_events(f, "self.core.instant"), [Row("instant of the actor", ["self.instant"], kind="write", always=[("the call succeeds", [])])], "time of the actor")
    tab(ctx, R, f, place_events(f, "self.core.leader"), [Row("leadership of the actor", ["Raft::leader(self.raft)"], kind="write", always=[("the call succeeds", [])])], "leadership of the actor")
    now = states(place_events(f, "self.instant"))
    for nm, es in (("the time of the actor", place_events(f, "self.core.instant")), ("a tick", ce("Raft::make_tick")), ("the snapshot transfers", ce("SnapshotProcessor::mut_processor")), ("the actor", ce("Actor::on_process_command"))):
        after(ctx, R, f, now, states(es), f"{nm} sees the old time")
    after(ctx, R, f, states(place_events(f, "self.core.instant")), states(ce("Actor::%")), "the actor runs with the old time")
    after(ctx, R, f, states(place_events(f, "self.core.leader")), states(ce("Actor::%")), "the actor runs with the old leadership")
    r = f.reach(states(ce("Actor::%")), skip_start=True)
    for e in place_events(f, ["self.core.instant", "self.core.leader"]):
        ctx.check(e.p not in r, R, f.where(e.n), "time or leadership change while the actor works", key=f"{R}:during")
    clock = [n for n in f.calls(m={"store"}) if any("self.default_clock" in cv(f.argt(n, 0, f.env_of(p))) for p in f.bynode[n.id])]
    cp = [p for n in clock for p in f.bynode[n.id]]
    ctx.check(bool(clock) and all(cv(f.argt(n, 1, f.env_of(p))) == "self.instant" for n in clock for p in f.bynode[n.id]), R, f.entry_body.name, "the clock is set to another time", key=f"{R}:clock")
    ctx.check(bool(cp) and not [p for p in oks(f) if p in live_from(f, None, (), avoid=set(cp))], R, f.entry_body.name, "the clock is not set", key=f"{R}:clock-always")
    after(ctx, R, f, now, cp, "the clock gets the old time")
    # ticks
    PERIOD = "self.driver_config.tick_period"
    DUE = ["(self.instant Sub self.tick_instant)", "%saturating_sub(self.instant, self.tick_instant)", "%saturating_sub(self.instant,self.tick_instant)"]
    LATE = [T("self.lameduck_mode", False), REL(DUE, ">=", PERIOD), REPL, RUN, T(INIT, True)]
    never = [("it is in lameduck mode", [T("self.lameduck_mode", True)]), ("the period has not passed", [REL(DUE, "<", PERIOD)]), ("there is no Raft node", [T(INIT, False)]), ("the replica is ephemeral", [EPH])]
    ticks = ce("Raft::make_tick")
    tab(ctx, R, f, ticks, [Row("tick", ["self.raft"], never=never, always=[("the period has passed", LATE)])], "ticks")
    once(ctx, R, f, ticks, "a tick")
    tab(ctx, R, f, [e for e in place_events(f, "self.tick_instant")], [
        Row("time of the tick", ["self.instant"], kind="write", never=[], always=[("the period has passed", LATE)])], "time of the tick")
    fst = {e.n.id for e in first_progress(f, "self.tick_instant")}
    adv = [e for e in place_events(f, "self.tick_instant") if e.n.id not in fst]
    for e in adv:
        for t, a in never:
            ctx.check(e.p not in live_from(f, None, a), R, f.where(e.n), f"the time of the tick changes although {t}", key=f"{R}:tick-time:{t}")
    rd = states(ce("Raft::has_ready"))
    r = f.reach(rd, skip_start=True)
    for e in ticks:
        ctx.check(e.p not in r, R, f.where(e.n), "the tick comes after the work that it produces", key=f"{R}:tick-late")
    A = ARG("StartReplica")
    RC = A + ".raft_config"
    tab(ctx, R, f, place_events(f, PERIOD), [Row("period", [RC + ".tick_period"], kind="write", never=[("there is no configuration", [V(RC, "no")])], always=[("the replica is configured", K("StartReplica") + [V("self.driver_state", "Created"), V(RC, "ok"), T(A + ".is_ephemeral", False), REPL])])], "period")
    # time within the actor
    for me in ("instant", "leader", "id", "config"):
        g = ctx.api("DriverContext", "ActorContext", me)
        got = {cv(x) for p, t in ret_values(g) for x in alts(t)}
        ctx.check(got == {f"self.core.{me}"}, R, g.entry_body.name, f"the context of the actor reports {sorted(got)}", key=f"{R}:context:{me}")

# ---------------------------------------------------------------- reports
def report(ctx):
    """What the replica reports about itself is its current state."""
    R = "report"
    f = drv(ctx)
    kinds = variants(ctx, "runtime::endpoint::in_message::Msg")
    ce = lambda n: call_events(f, n)
    msgs = lambda k: [e for e in grown(f, "self.messages") if f"Msg::{k}{{" in cv(e.args[-1]) or f"Msg::{k}}}" in cv(e.args[-1])]
    SELF = REL("self.id", "=", "Raft::state(self.raft).leader_replica_id")
    OTHER = REL("self.id", "<>", "Raft::state(self.raft).leader_replica_id")
    OWN = "Raft::state(self.raft)+{committed_cluster_config=self.raft_progress.config_state.voters}"
    LIVE = [REPL, RUN, T(INIT, True)]
    NOW_, WAS = "self.raft_state", "self.prev_raft_state"
    CHG, SAME = REL(WAS, "<>", NOW_), REL(WAS, "=", NOW_)
    ASK = [T(["take(self.cluster_check_requested)", "self.cluster_check_requested"], True)]
    NOASK = [T(["take(self.cluster_check_requested)", "self.cluster_check_requested"], False)]
    tab(ctx, R, f, place_events(f, NOW_), [
        Row("state of the leader", [OWN], kind="write", never=[("another replica leads", [OTHER]), ("the replica is ephemeral", [EPH])], always=[("it leads", LIVE + [SELF])]),
        Row("state of a follower", ["Raft::state(self.raft)"], kind="write", never=[("it leads", [SELF]), ("the replica is ephemeral", [EPH])], always=[("another replica leads", LIVE + [OTHER])])], "state of the cluster")
    REP = lambda what: f"OutMessage{{msg=Msg::CheckCluster{{0=CheckClusterResponse{{{what}}}}}}}"
    FULL = REP(f"leader_replica_id={NOW_}.leader_replica_id, leader_term={NOW_}.leader_term, cluster_replica_ids={NOW_}.committed_cluster_config, has_pending_changes={NOW_}.has_pending_change")
    quiet_ = [("nothing has changed", [SAME] + NOASK), ("the replica is ephemeral", [EPH]), ("there is no Raft node", [T(INIT, False)])]
    tab(ctx, R, f, msgs("CheckCluster"), [Row("report", [FULL], kind="grow", never=quiet_, always=[("the state has changed", LIVE + [CHG]), ("a report is requested", LIVE + ASK)])], "reports of the cluster")
    once(ctx, R, f, msgs("CheckCluster"), "reporting the cluster")
    cmp_late = states(place_events(f, NOW_))
    after(ctx, R, f, cmp_late, states(msgs("CheckCluster")), "the report shows the old state")
    r = f.reach(cmp_late, skip_start=True)
    for e in ce("Raft::make_tick") + ce("Raft::advance_ready") + ce("Raft::apply_config_change") + place_events(f, "self.raft_progress.%"):
        ctx.check(e.p not in r, R, f.where(e.n), "the state is reported before the Raft node advanced", key=f"{R}:early")
    tab(ctx, R, f, place_events(f, "self.cluster_check_requested", ("write",)), [Row("request for a report", ["true"], kind="write", never=[("another message comes", K(*[x for x in kinds if x != "CheckCluster"])), ("there is no message", [V(IN, "no")]), ("the replica is ephemeral", [EPH]), ("it does not run", [DOWN])], always=[("it comes", K("CheckCluster") + [UP, REPL])]),
        Row("answered request", ["false"], kind="write", min=0, never=[("there is no Raft node", [T(INIT, False)]), ("the replica is ephemeral", [EPH])])], "request for a report")
    ctx.check(bool(place_events(f, "self.cluster_check_requested", ("shrink",))) or any(cv(e.args[-1]) == "false" for e in place_events(f, "self.cluster_check_requested", ("write",))), R, f.entry_body.name, "a request for a report is answered again and again", key=f"{R}:request-reset")
    # consequences of a change
    VOT = "self.raft_progress.config_state.voters"
    ccs = ce("CommunicationModule::process_cluster_change")
    tab(ctx, R, f, ccs, [Row("channels", ["self.communication", VOT], never=[("nothing has changed", [SAME]), ("the replica is ephemeral", [EPH])], always=[("the state has changed", LIVE + [CHG])])], "change of the cluster")
    scs = ce("SnapshotProcessor::process_cluster_change")
    tab(ctx, R, f, scs, [Row("transfers", ["self.snapshot", NOW_ + ".leader_replica_id", NOW_ + ".leader_term", NOW_ + ".committed_cluster_config"], never=[("nothing has changed", [SAME]), ("the replica is ephemeral", [EPH])], always=[("the state has changed", LIVE + [CHG, UP])])], "change of the cluster")
    once(ctx, R, f, ccs, "change of the channels")
    once(ctx, R, f, scs, "change of the transfers")
    for e in ccs + scs:
        ctx.check(e.p not in live_from(f, None, (), avoid=set(cmp_late)), R, f.where(e.n), "the components see the old state", key=f"{R}:stale")
    # changes of the cluster
    C = ARG("ChangeCluster")
    TYP = [C + ".change_type?", f"ChangeClusterType::try_from({C}.change_type)?", f"{C}.change_type"]
    KIND = [C + ".change_type"]
    def chg(nm, var):
        return [V(C + ".change_type", "ok"), V(C + ".change_type?", var)]
    ADD, REM, UNK = chg("add", "ChangeTypeAddReplica"), chg("rem", "ChangeTypeRemoveReplica"), chg("unk", "ChangeTypeUnspecified")
    prop = lambda t: f"ConfChange{{change_type=ConfChangeType::{t}, node_id={C}.replica_id,%}}"
    MC = lambda t: f"Raft::make_config_change_proposal(self.raft, {prop(t)})"
    ON = K("ChangeCluster") + [UP, REPL]
    mc = ce("Raft::make_config_change_proposal")
    common = [("the kind is unknown", [V(C + ".change_type", "no")]), ("the kind is not given", UNK), ("another message comes", K(*[x for x in kinds if x != "ChangeCluster"])), ("the replica does not run", [DOWN]), ("the replica is ephemeral", [EPH])]
    tab(ctx, R, f, mc, [
        Row("replica added", ["self.raft", prop("AddNode")], never=common + [("one is removed", REM)], always=[("one is added", ON + ADD)]),
        Row("replica removed", ["self.raft", prop("RemoveNode")], never=common + [("one is added", ADD)], always=[("one is removed", ON + REM)])], "changes of the cluster")
    once(ctx, R, f, mc, "changing the cluster")
    ANS = lambda s: f"OutMessage{{msg=Msg::ChangeCluster{{0=ChangeClusterResponse{{change_id={C}.change_id, change_status=ChangeClusterStatus::{s}}}}}}}"
    errs = variants(ctx, "Error", "raft")
    both_ = [MC("AddNode"), MC("RemoveNode")]
    OKP = [V(x, "ok") for x in both_]
    DROP = [y for x in both_ for y in (V(x, "no"), V(x + "!err", "ProposalDropped"))]
    BRK = [y for x in both_ for y in (V(x, "no"), V(x + "!err", *[z for z in errs if z != "ProposalDropped"]))]
    ans = msgs("ChangeCluster")
    tab(ctx, R, f, ans, [
        Row("pending", [ANS("ChangeStatusPending")], kind="grow", never=[("the kind is unknown", [V(C + ".change_type", "no")]), ("the kind is not given", UNK), ("Raft drops it", DROP), ("Raft fails", BRK)], always=[("one is added", ON + ADD + OKP), ("one is removed", ON + REM + OKP)]),
        Row("rejected", [ANS("ChangeStatusRejected")], kind="grow", never=[("Raft has it and it is added", ADD + OKP), ("Raft has it and it is removed", REM + OKP), ("one is added and Raft fails", ADD + BRK)], always=[("the kind is unknown", ON + [V(C + ".change_type", "no")]), ("the kind is not given", ON + UNK), ("Raft drops an addition", ON + ADD + DROP), ("Raft drops a removal", ON + REM + DROP)])], "answers to changes")
    once(ctx, R, f, ans, "answering a change")
    fails(ctx, R, f, "Raft fails on an addition", ON + ADD + BRK)
    fails(ctx, R, f, "Raft fails on a removal", ON + REM + BRK)
    # state of the replica
    ST = msgs("GetReplicaState")
    SIZE = f"Store::latest_snapshot_size({STORE})"
    only = [("another message comes", K(*[x for x in kinds if x != "GetReplicaState"])), ("there is no message", [V(IN, "no")]), ("it does not run", [DOWN])]
    tab(ctx, R, f, ST, [
        Row("state of a replica", [f"OutMessage{{msg=Msg::GetReplicaState{{0=GetReplicaStateResponse{{applied_index=self.raft_progress.applied_index, latest_snapshot_size={SIZE}}}}}}}"], kind="grow", never=only + [("the replica is ephemeral", [EPH])], always=[("it is asked for", K("GetReplicaState") + [UP, REPL])]),
        Row("state of an ephemeral replica", [["OutMessage{msg=Msg::GetReplicaState{0=default:GetReplicaStateResponse()}}", "OutMessage{msg=Msg::GetReplicaState{0=GetReplicaStateResponse{applied_index=0, latest_snapshot_size=0}}}"]], kind="grow", never=only + [("the replica is replicated", [REPL])], always=[("it is asked for", K("GetReplicaState") + [UP, EPH])])], "state of the replica")
    once(ctx, R, f, ST, "reporting the state")
    # log messages
    LG = "DrainOutput::take_entries(self.logger_output)"
    lg = msgs("Log")
    tab(ctx, R, f, lg, [Row("log message", [f"OutMessage{{msg=Msg::Log{{0={LG}[*]}}}}"], kind="grow", foreach=[("sent for each", LG, [])])], "log")
    tab(ctx, R, f, ce("DrainOutput::take_entries"), [Row("log messages taken", ["self.logger_output"], always=[("the call succeeds", [RUN])])], "log")

# ---------------------------------------------------------------- start
def start(ctx):
    """A replica starts with the configuration it was given."""
    R = "start"
    f = drv(ctx)
    kinds = variants(ctx, "runtime::endpoint::in_message::Msg")
    ce = lambda n: call_events(f, n)
    A = ARG("StartReplica")
    RC, SC = A + ".raft_config", A + ".raft_config.snapshot_config"
    NEW = V("self.driver_state", "Created")
    ONP = K("StartReplica") + [NEW]
    # the request is what counts for the kind, the field is written from it
    KR, KE = [T(["self.is_ephemeral", A + ".is_ephemeral"], False)], [T(["self.is_ephemeral", A + ".is_ephemeral"], True)]
    other = [("another message comes", K(*[x for x in kinds if x != "StartReplica"])), ("there is no message", [V(IN, "no")]), ("it has been started", [V("self.driver_state", "Started", "Stopped")])]
    w = lambda pl, v, al=(), nv=(): tab(ctx, R, f, place_events(f, pl), [Row(pl, [v], kind="write", never=other + list(nv), always=list(al) or [("it is started", ONP)])], pl)
    w("self.id", A + ".replica_id_hint")
    w("self.core.id", "self.id")
    w("self.core.config", [f"take({A}.app_config)", A + ".app_config"])
    ids = states(place_events(f, "self.id"))
    for nm, es in (("the context", place_events(f, "self.core.id")), ("the channels", ce("CommunicationModule::init")), ("the Raft node", ce("Raft::init")), ("the transfers", ce("SnapshotProcessor::init")), ("the answer", [e for e in grown(f, "self.messages") if "Msg::StartReplica" in cv(e.args[-1])])):
        after(ctx, R, f, ids, states(es), f"{nm}: uses the old id")
    INI = "Actor::on_init(self.actor, %)"
    tab(ctx, R, f, ce("Actor::on_init"), [Row("actor", ["self.actor", "DriverContext{core=self.core, %"], never=other, always=[("it is started", ONP)])], "actor")
    once(ctx, R, f, ce("Actor::on_init"), "starting the actor")
    after(ctx, R, f, states(place_events(f, "self.core.config")), states(ce("Actor::on_init")), "the actor starts without its configuration")
    after(ctx, R, f, states(place_events(f, "self.core.id")), states(ce("Actor::on_init")), "the actor starts without its id")
    SAVE = "Actor::on_save_snapshot(self.actor)"
    CFG = lambda e, x, h: f"Config{{id=self.id, election_tick={e}, heartbeat_tick={h}, %max_size_per_msg={x},%"
    D = "default:Config()."
    with_ = CFG(RC + ".election_tick", RC + ".max_size_per_msg", RC + ".heartbeat_tick")
    without = CFG(D + "election_tick", D + "max_size_per_msg", D + "heartbeat_tick")
    STO = "call_mut(self.store, (%, self.driver_config.snapshot_count))"
    row = lambda nm, c, nv, al: Row(nm, ["self.raft", "self.id", c, SAVE, A + ".is_leader", STO, "%"], never=other + [nv, ("the replica is ephemeral", KE), ("the actor does not start", [V(INI, "no")]), ("there is no snapshot", [V(SAVE, "no")])], always=[("it is started", ONP + KR + [al])])
    tab(ctx, R, f, ce("Raft::init"), [row("configured", with_, ("there is no configuration", [V(RC, "no")]), V(RC, "ok")), row("not configured", without, ("there is a configuration", [V(RC, "ok")]), V(RC, "no"))], "Raft node")
    once(ctx, R, f, ce("Raft::init"), "starting the Raft node")
    after(ctx, R, f, states(ce("Actor::on_init")), states(ce("Raft::init")), "the Raft node starts before the actor")
    w("self.driver_config.snapshot_count", SC + ".snapshot_count", al=[("it is configured", ONP + KR + [V(RC, "ok"), V(SC, "ok")])], nv=[("there is no configuration", [V(RC, "no")]), ("there is none for snapshots", [V(SC, "no")])])
    after(ctx, R, f, states(place_events(f, "self.driver_config.snapshot_count")), states(ce("Raft::init")), "the store is made with the old configuration", [V(RC, "ok"), V(SC, "ok")])
    # progress of the first leader
    LEAD = [T(A + ".is_leader", True)]
    nv = other + [("it does not lead", [T(A + ".is_leader", False)])]
    whole = place_events(f, "self.raft_progress")
    idx = whole + first_progress(f, "self.raft_progress.applied_index")
    vot = whole + first_progress(f, "self.raft_progress.config_state") + first_progress(f, "self.raft_progress.config_state.voters")
    tab(ctx, R, f, idx, [Row("index of the first leader", [lambda e, t: cv(t) == "1" or m("RaftProgress{applied_index=1, %", cv(t))], kind="write", never=nv, always=[("it leads", ONP + KR + LEAD)])], "progress")
    tab(ctx, R, f, vot, [Row("cluster of the first leader", [lambda e, t: voters(f, e, t) == ["self.id"]], kind=("write", "grow"), never=nv, always=[("it leads", ONP + KR + LEAD)])], "progress")
    fst = first_progress(f, "self.tick_instant")
    tab(ctx, R, f, fst, [Row("first tick", ["self.instant"], kind="write", never=other, always=[("it is started", ONP + KR)])], "first tick")
    # transfers and channels
    tab(ctx, R, f, ce("SnapshotProcessor::init"), [
        Row("transfers", ["self.snapshot", "%", "self.id", SC], never=other + [("the replica is ephemeral", KE)], always=[("they are configured", ONP + KR + [V(RC, "ok")])]),
        Row("transfers without configuration", ["self.snapshot", "%", "self.id", "None"], never=other + [("they are configured", [V(RC, "ok")]), ("the replica is ephemeral", KE)], always=[("they are not configured", ONP + KR + [V(RC, "no")])])], "transfers")
    CLK = "Actor::get_clock_override(self.actor)"
    COM = lambda a, b: f"CommunicationConfig{{handshake_retry_tick={a}, handshake_initiated_tick_timeout={b}, reference_values=Actor::get_reference_values(self.actor), endorsements={A}.endorsements}}"
    rows = []
    for cn, c, cv_, ca in (("configured", COM(RC + ".handshake_retry_tick", f"({RC}.heartbeat_tick Mul 10)"), ("there is no configuration", [V(RC, "no")]), V(RC, "ok")), ("not configured", COM("1", "10"), ("there is a configuration", [V(RC, "ok")]), V(RC, "no"))):
        for tn, t, tv, ta in (("own clock", CLK, ("the actor has none", [V(CLK, "no")]), V(CLK, "ok")), ("host clock", "self.default_clock", ("the actor has one", [V(CLK, "ok")]), V(CLK, "no"))):
            rows.append(Row(f"channels, {cn}, {tn}", ["self.communication", "self.id", "%", t, c], never=other + [cv_, tv], always=[("it is started", ONP + [ca, ta])]))
    tab(ctx, R, f, ce("CommunicationModule::init"), rows, "channels")
    once(ctx, R, f, ce("CommunicationModule::init"), "starting the channels")
    msgs = lambda k: [e for e in grown(f, "self.messages") if f"Msg::{k}{{" in cv(e.args[-1])]
    tab(ctx, R, f, msgs("StartReplica"), [Row("answer", ["OutMessage{msg=Msg::StartReplica{0=StartReplicaResponse{replica_id=self.id}}}"], kind="grow", never=other, always=[("it is started", ONP)])], "answer to the start")
    once(ctx, R, f, msgs("StartReplica"), "answering the start")
    fails(ctx, R, f, "the actor does not start", ONP + [V(INI, "no")])
    fails(ctx, R, f, "the actor has no first snapshot", ONP + KR + [V(SAVE, "no")])
    fails(ctx, R, f, "the Raft node does not start", ONP + KR + [V("Raft::init(%", "no")])
    up = {e.p for e in place_events(f, "self.driver_state") if cv(e.args[-1]) == "DriverState::Started"}
    for n_, es in (("the actor", ce("Actor::on_init")), ("the channels", ce("CommunicationModule::init"))):
        after(ctx, R, f, states(es), list(up), f"the replica runs before {n_}")
    pc = states(ce("Actor::on_process_command"))
    r = live_from(f, list(up), [UP], avoid=set(pc))
    ctx.check(not [p for p in oks(f) if p in r], R, f.entry_body.name, "the actor does not work after the start", key=f"{R}:first-progress")
    # stop
    tab(ctx, R, f, ce("Actor::on_shutdown"), [Row("shutdown", ["self.actor"], never=[("another message comes", K(*[x for x in kinds if x != "StopReplica"])), ("there is no message", [V(IN, "no")]), ("it is stopped", [V("self.driver_state", "Stopped")])], always=[("it is stopped", K("StopReplica") + [V("self.driver_state", "Created", "Started")])])], "shutdown")
    once(ctx, R, f, ce("Actor::on_shutdown"), "the shutdown")
    tab(ctx, R, f, msgs("StopReplica"), [Row("answer", ["OutMessage{msg=Msg::StopReplica{0=StopReplicaResponse}}"], kind="grow", never=[("another message comes", K(*[x for x in kinds if x != "StopReplica"])), ("it is stopped", [V("self.driver_state", "Stopped")])], always=[("it is stopped", K("StopReplica") + [V("self.driver_state", "Created", "Started")])])], "answer to the stop")
def first_progress(f, place):
    """Writes that only a message can cause, not the passing of time."""
    idle = live_from(f, None, [V(IN, "no")])
    return [e for e in place_events(f, place) if not any(p in idle for p in f.bynode[e.n.id])]
def voters(f, e, t):
    ls = [x for x in find_field(t, "ConfState", "voters")] or [t]
    return sorted({cv(v) for l in ls for _, v in elem_sites(f, e.n, l)})

# ---------------------------------------------------------------- Raft node
def adapter(ctx):
    """The adapter passes everything to the Raft node and back unchanged."""
    R = "adapter"
    from rules_storage import outcomes
    N = "self.raft_node"
    D = "default:RaftState()."
    ST = f"RawNode::status({N})"
    def flow(me):
        return ctx.api("RaftSimple", "Raft", me)
    def passes(me, call, args, ret):
        f = flow(me)
        es = call_events(f, "RawNode::%")
        tab(ctx, R + ":" + me, f, es, [Row("passed on", [N] + args, always=[("the call returns", [])])], me)
        once(ctx, R + ":" + me, f, es, me)
        for e in es:
            ctx.check(e.n.d["cal"].m == call, R, f.where(e.n), f"{me} calls {e.n.d['cal'].m}", key=f"{R}:{me}:call")
        for p, t in ret_values(f):
            for x in alts(t):
                ctx.check(m(ret, cv(x)), R, showp(f, p), f"{me} returns {cv(x)[:300]}", key=f"{R}:{me}:result")
        for e in place_events(f, "self.%"):
            ctx.check(e.kind != "write" or e.target != N, R, f.where(e.n), f"{me} replaces the node", key=f"{R}:{me}:node")
        return f
    EMPTYV = ["new()", "Vec::new()"]
    passes("mut_store", "mut_store", [], f"RawNode::mut_store({N})")
    passes("make_step", "step", ["$2"], f"RawNode::step({N}, $2)")
    passes("make_proposal", "propose", ["%", "$2"], f"RawNode::propose({N}, %, $2)")
    passes("make_config_change_proposal", "propose_conf_change", ["%", "$2"], f"RawNode::propose_conf_change({N}, %, $2)")
    passes("make_tick", "tick", [], ["()", f"RawNode::tick({N})"])
    passes("apply_config_change", "apply_conf_change", ["$2"], f"RawNode::apply_conf_change({N}, $2)")
    passes("has_ready", "has_ready", [], f"RawNode::has_ready({N})")
    passes("advance_apply", "advance_apply", [], ["()", f"RawNode::advance_apply({N})"])
    passes("report_snapshot", "report_snapshot", ["$2", "$3"], ["()", f"RawNode::report_snapshot({N}, $2, $3)"])
    # ready states
    RY = f"RawNode::ready({N})"
    T_ = lambda x: f"Ready::take_{x}({RY})"
    NUM = f"Ready::number({RY})"
    f = passes("get_ready", "ready", [], f"RaftReady{{messages={T_('messages')}, persisted_messages={T_('persisted_messages')}, entries={T_('entries')}, committed_entries={T_('committed_entries')}, hard_state=Ready::hs({RY}), snapshot=Ready::snapshot({RY}), number={NUM}}}")
    tab(ctx, R, f, place_events(f, "self.raft_ready"), [Row("kept", [NUM, RY], kind="grow", always=[("a ready state is taken", [])])], "ready state")
    KEPT = ["remove(self.raft_ready, $2.number)", "self.raft_ready[$2.number]"]
    LR = [f"RawNode::advance({N}, {x})" for x in KEPT]
    f = passes("advance_ready", "advance", [KEPT], [f"RaftLightReady{{messages=LightReady::take_messages({x}), committed_entries=LightReady::take_committed_entries({x})}}" for x in LR])
    tab(ctx, R, f, place_events(f, "self.raft_ready"), [Row("used", ["$2.number"], kind="shrink", always=[("the ready state is advanced", [])])], "ready state")
    # the parts of a ready state
    for ty, parts in (("RaftReady", ("messages", "persisted_messages", "entries", "committed_entries", "snapshot")), ("RaftLightReady", ("messages", "committed_entries"))):
        for x in parts:
            g = ctx.api(ty, None, "take_" + x)
            got = {cv(y) for p, t in ret_values(g) for y in alts(t)}
            ctx.check(got == {f"take(self.{x})"}, R, g.entry_body.name, f"take_{x} gives {sorted(got)}", key=f"{R}:{ty}:{x}")
    for x in ("hard_state", "number"):
        g = ctx.api("RaftReady", None, x)
        got = {cv(y) for p, t in ret_values(g) for y in alts(t)}
        ctx.check(got == {f"self.{x}"}, R, g.entry_body.name, f"{x} gives {sorted(got)}", key=f"{R}:RaftReady:{x}")
    # state
    f = flow("initialized")
    outcomes(ctx, R, f, "a node", [V(N, "ok")], ["is_some(%s)" % N, "true"])
    outcomes(ctx, R, f, "no node", [V(N, "no")], ["is_some(%s)" % N, "false"])
    f = flow("leader")
    outcomes(ctx, R, f, "no node", [V(N, "no"), T(f"is_some({N})", False)], "false")
    roles = variants(ctx, "StateRole")
    ctx.check({"Leader", "Follower", "Candidate", "PreCandidate"} == set(roles), R, "StateRole", f"roles: {roles}", key=f"{R}:roles")
    ROLE = f"{ST}.ss.raft_state"
    LEAD, NOT = [V(ROLE, "Leader")], [V(ROLE, *[x for x in roles if x != "Leader"])]
    ON = [V(N, "ok"), T(f"is_some({N})", True)]
    outcomes(ctx, R, f, "the node leads", ON + LEAD, "true")
    outcomes(ctx, R, f, "the node does not lead", ON + NOT, "false")
    f = flow("state")
    outcomes(ctx, R, f, "state of the leader", [V(N, "ok")] + LEAD, f"RaftState{{leader_replica_id={ST}.ss.leader_id, leader_term={ST}.hs.term, committed_cluster_config={D}committed_cluster_config, has_pending_change=Raft::has_pending_conf({N}.raft)}}")
    outcomes(ctx, R, f, "state of another replica", [V(N, "ok")] + NOT, ["RaftState{leader_replica_id=%sleader_replica_id, leader_term=%sleader_term, committed_cluster_config=%scommitted_cluster_config, has_pending_change=%shas_pending_change}" % (D, D, D, D), "default:RaftState()"])
    # start
    f = flow("init")
    LEADS = [T("$5", True)]
    aps = call_events(f, "Store::apply_snapshot")
    tab(ctx, R, f, aps, [Row("first snapshot", ["$6", lambda e, t: m("Snapshot{data=$4, metadata=SnapshotMetadata{%, index=1, term=1}}", cv(t)) and voters(f, e, t) == ["$2"]], never=[("the replica does not lead", [T("$5", False)])], always=[("the replica leads", LEADS)])], "first snapshot")
    once(ctx, R, f, aps, "the first snapshot")
    AP = "Store::apply_snapshot($6, %"
    NEW = "RawNode::new($3, $6, $7)"
    tab(ctx, R, f, call_events(f, "RawNode::new"), [Row("node", ["$3", "$6", "$7"], never=[("the first snapshot is not stored", LEADS + [V(AP, "no")])], always=[("it starts", [V(AP, "ok")])])], "node")
    tab(ctx, R, f, place_events(f, N), [Row("node", [NEW], kind="write", never=[("it does not start", [V(NEW, "no")]), ("the first snapshot is not stored", LEADS + [V(AP, "no")])], always=[("it starts", [V(NEW, "ok"), V(AP, "ok")])])], "node")
    outcomes(ctx, R, f, "the node does not start", [V(NEW, "no"), V(AP, "ok")], "Err{%")
    outcomes(ctx, R, f, "the first snapshot is not stored", LEADS + [V(AP, "no")], "Err{%")
    outcomes(ctx, R, f, "the node starts", [V(NEW, "ok"), V(AP, "ok")], ["()", "Ok{0=()}"])
    after(ctx, R, f, states(aps), states(call_events(f, "RawNode::new")), "the node starts before the first snapshot is stored", LEADS)
