"""Secure channels between replicas: communication module, handshake, encryptor, sessions."""
from rlib import *
from rules_storage import outcomes, quiet, PANIC
from rules_coord import once, both

CM = "DefaultCommunicationModule"
def comm(ctx, me, tr="CommunicationModule"):
    return ctx.api(CM, tr, me)
STATES = ["Unknown", "Initialized", "Initiated", "Completed", "Failed"]
OUTS = ["DeliverSystemMessage", "DeliverSnapshotRequest", "DeliverSnapshotResponse"]
INS = ["SecureChannelHandshake"] + OUTS
UNINIT, ON = [REL("self.replica_id", "=", "0")], [REL("self.replica_id", "<>", "0")]
HS = "HandshakeState::"
# the state of the peer; that it is looked up under the id of the peer is checked by entry
S = "self.replicas[%]"
def st(*v):
    return V(S + ".handshake_state", *v)
INIT, BUSY = st("Initialized"), st("Initiated", "Completed", "Failed")
SESS = S + ".handshake_session"
TAKE = f"HandshakeSession::take_out_message({SESS})"
PEND = S + ".pending_handshake_message"
def take(v):
    return V(TAKE, v)
def msg(v):
    return [V(PEND, v), V(TAKE + "?", v)]
def states(f):
    return place_events(f, S + ".handshake_state")
def entry(ctx, R, f, kinds, side, role):
    """The state of the peer is looked up or created, and gets a session in its first state."""
    peer = lambda k: f"$2.{k}.0.{side}_replica_id"
    outcomes(ctx, R, f, "not initialised", UNINIT, "Err{0=PalError::InvalidOperation}")
    quiet(ctx, R, f, "not initialised", UNINIT)
    want = {peer(k): k for k in kinds}
    for e in place_events(f, "self.replicas"):
        k = cv(e.args[0]) if e.args else ""
        if ctx.check(e.kind == "grow" and k in want, R, f.where(e.n), f"the peers are changed by {e.text()[:200]}", key=f"{R}:peer"):
            ctx.check(e.p not in live_from(f, None, [V("$2", *[x for x in kinds if x != want[k]])]), R, f.where(e.n), f"the peer of another message is {k}", key=f"{R}:peer:{want[k]}")
    for e in place_events(f, "self.%"):
        if e.target.startswith("self.replicas["):
            ks = e.target[len("self.replicas["):].split("]")[0].strip("{}").split(" | ")
            for k in ks:
                ctx.check(k in want, R, f.where(e.n), f"another peer than the one of the message changes: {e.target[:200]}", key=f"{R}:other-peer")
                if len(ks) == 1 and k in want:
                    ctx.check(e.p not in live_from(f, None, [V("$2", *[x for x in kinds if x != want[k]])]), R, f.where(e.n), f"another peer changes: {e.target[:200]}", key=f"{R}:other-peer:{k}")
        else:
            ctx.check(e.target == "self.replicas", R, f.where(e.n), f"a message has another effect: {e.text()[:200]}", key=f"{R}:effect")
    got = lambda k: f"HandshakeSessionProvider::get(self.handshake_session_provider, self.replica_id, {peer(k)}, Role::{role})"
    new = lambda k: [V("$2", k), st("Unknown")] + ON
    table(ctx, R, f, call_events(f, "HandshakeSessionProvider::get"), [Row(f"session for {k}", ["self.handshake_session_provider", "self.replica_id", peer(k), f"Role::{role}"],
          never=[("the message is another", [V("$2", *[x for x in kinds if x != k])]), ("the peer has a session", [st(*STATES[1:])])],
          always=[(f"{k} of a new peer", new(k))]) for k in kinds], "session")
    table(ctx, R, f, place_events(f, SESS, ("write",)), [Row(f"session kept for {k}", [got(k)], never=[("the peer has a session", [st(*STATES[1:])]), ("no session was created", [V(got(k), "no")])],
          always=[(f"{k} of a new peer", new(k) + [V(got(k), "ok")])]) for k in kinds], "session")
    table(ctx, R, f, [e for e in states(f) if cv(e.args[-1]) == HS + "Initialized"], [Row("has a session", None, kind="write", never=[("it had one", [st(*STATES[1:])])], always=[(f"{k} of a new peer", new(k) + [V(got(k), "ok")]) for k in kinds])], "state")
    for k in kinds:
        outcomes(ctx, R, f, f"no session can be created for {k}", new(k) + [V(got(k), "no")], "Err{0=PalError::Internal}")
    fresh_state(ctx, R)
def fresh_state(ctx, R):
    """A new peer starts without session, messages and keys."""
    g = ctx.api("CommunicationState", None, "new")
    outcomes(ctx, R, g, "new peer", [], "CommunicationState{logger=$1, handshake_state=HandshakeState::Unknown, pending_handshake_message=None, handshake_session=None, unencrypted_messages=new(), encryptor=None, handshake_initiated_tick_timeout=$2}")

HB = "MsgHeartbeat"
NOHB = ["MsgHup", "MsgBeat", "MsgPropose", "MsgAppend", "MsgAppendResponse", "MsgRequestVote", "MsgRequestVoteResponse", "MsgSnapshot", "MsgHeartbeatResponse", "MsgUnreachable", "MsgSnapStatus", "MsgCheckQuorum", "MsgTransferLeader", "MsgTimeoutNow", "MsgReadIndex", "MsgReadIndexResp", "MsgRequestPreVote", "MsgRequestPreVoteResponse"]
def send(ctx):
    """Messages to other replicas wait for the channel; the first one starts the handshake."""
    R = "send"
    f = comm(ctx, "process_out_message")
    entry(ctx, R, f, OUTS, "recipient", "Initiator")
    Q = S + ".unencrypted_messages"
    kept = place_events(f, [Q, Q + "[*]"])
    for e in kept:
        ctx.check(e.kind in ("grow", "write") and cv(e.args[-1]) == "$2", R, f.where(e.n), f"waiting messages are changed: {e.text()[:240]}", key=f"{R}:kept")
        ctx.check(e.kind != "grow" or e.n.d["cal"].m in ("push", "push_back"), R, f.where(e.n), "messages are not kept in the order they are sent", key=f"{R}:order")
        ctx.check(e.kind != "write" or e.target.endswith("[*]"), R, f.where(e.n), "the waiting messages are replaced", key=f"{R}:overwritten")
    starts = [INIT, take("ok")] + msg("ok")
    ps = {e.p for e in kept}
    for name, a in (("waits for an answer", [st("Initiated")]), ("is connected", [st("Completed")]), ("has failed", [st("Failed")]), ("starts the handshake", starts)):
        for k in OUTS:
            r = live_from(f, None, ON + [V("$2", k)] + a, avoid=ps)
            ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, f"{k} to a peer that {name} is lost", key=f"{R}:lost:{k}:{name}")
            outcomes(ctx, R, f, f"{k} to a peer that {name}", ON + [V("$2", k)] + a, "()")
    for e in kept:
        ctx.check(not [p for p in f.reach([e.p], skip_start=True) if p in ps], R, f.where(e.n), "a message is kept twice", key=f"{R}:twice")
    # the handshake
    busy = [("the handshake is on its way or over", [BUSY])]
    nomsg, nothing = [take("no")], [take("ok")] + msg("no")
    table(ctx, R, f, call_events(f, "HandshakeSession::%"), [Row("first message", None, never=busy, always=[("the handshake starts", ON + [INIT])])], "handshake")
    for e in call_events(f, "HandshakeSession::%"):
        ctx.check(e.n.d["cal"].m == "take_out_message", R, f.where(e.n), f"sending uses the session for {e.n.d['cal'].m}", key=f"{R}:session")
    table(ctx, R, f, place_events(f, PEND), [Row("handshake message", [TAKE], kind="write", never=busy + [("there is none", nomsg)], always=[("the handshake starts", ON + starts)])], "handshake")
    table(ctx, R, f, [e for e in states(f) if cv(e.args[-1]) != HS + "Initialized"], [
        Row("initiated", [HS + "Initiated{0=0}"], kind="write", never=busy + [("there is no first message", [INIT] + nomsg), ("there is nothing to send", [INIT] + nothing)], always=[("the handshake starts", ON + starts)]),
        Row("failed", [HS + "Failed{0=0}"], kind="write", never=busy + [("the handshake starts", starts)], always=[("there is no first message", ON + [INIT] + nomsg), ("there is nothing to send", ON + [INIT] + nothing)])], "state")
    for nm, a in (("no first message", nomsg), ("nothing to send", nothing)):
        outcomes(ctx, R, f, f"handshake cannot start: {nm}", ON + [INIT] + a, "()")
    # a heartbeat replaces only a heartbeat; nothing else replaces
    for e in kept:
        if e.kind != "write":
            continue
        I = Q + "[*]"
        for what, a in (("another message", [V("$2", *OUTS[1:])]), ("a message that is no heartbeat", [V("$2.DeliverSystemMessage.1", *NOHB)])):
            ctx.check(e.p not in live_from(f, None, a), R, f.where(e.n), f"{what} replaces a waiting message", key=f"{R}:replace:{what}")
        for what, a in (("another message", [V(I, *OUTS[1:])]), ("a message that is no heartbeat", [V(I + ".DeliverSystemMessage.1", *NOHB)])):
            r = iteration(f, Q, a)
            ctx.check(bool(loops(f, Q)) and e.p not in r, R, f.where(e.n), f"a heartbeat replaces {what}", key=f"{R}:replaced:{what}")
    # nothing else touches a channel in use
    for e in place_events(f, [S + ".encryptor", SESS]):
        ctx.check(e.target.endswith(".handshake_session") and e.kind == "write", R, f.where(e.n), f"sending changes the channel: {e.text()[:200]}", key=f"{R}:channel")

def receive(ctx):
    """Nothing is accepted that the session with its sender has not decrypted."""
    R = "receive"
    f = comm(ctx, "process_in_message")
    entry(ctx, R, f, INS, "sender", "Recipient")
    other = [x for x in variants(ctx, "runtime::endpoint::in_message::Msg") if x not in INS]
    ctx.need(other, "other kinds of message")
    outcomes(ctx, R, f, "unsupported message", ON + [V("$2", *other)], "Err{0=PalError::InvalidOperation}")
    quiet(ctx, R, f, "unsupported message", ON + [V("$2", *other)])
    hand, data = [V("$2", "SecureChannelHandshake")], [V("$2", *OUTS)]
    early = st("Initialized", "Initiated")
    H = "$2.SecureChannelHandshake.0"
    PROC = f"HandshakeSession::process_message({SESS}, {H})"
    DONE = f"HandshakeSession::is_completed({SESS})"
    proc = lambda v: V(PROC, v)
    good = hand + [proc("ok"), take("ok")]
    # handshake
    outside = [("the handshake is over", [st("Completed", "Failed")]), ("the message is no handshake message", [V("$2", *OUTS)])]
    hc = call_events(f, "HandshakeSession::%")
    table(ctx, R, f, hc, [Row("use of the session", None, never=outside)], "handshake")
    by = lambda mm: [e for e in hc if e.n.d["cal"].m == mm]
    table(ctx, R, f, by("process_message"), [Row("handshake message processed", [SESS, H], always=[("handshake message", ON + hand + [early])])], "handshake")
    once(ctx, R, f, by("process_message"), "processing a handshake message")
    table(ctx, R, f, by("take_out_message"), [Row("answer taken", [SESS], never=[("the message was not accepted", [proc("no")])], always=[("the message was accepted", ON + hand + [early, proc("ok")])])], "handshake")
    table(ctx, R, f, place_events(f, PEND), [Row("answer kept", [TAKE], kind="write", never=outside + [("there is none", [take("no")])], always=[("answer", ON + good + [early])])], "handshake")
    KEYS = [f"HandshakeSession::get_encryptor(take({SESS}))", f"HandshakeSession::get_encryptor({SESS})"]
    fin, open_ = good + [early, T(DONE, True)], good + [early, T(DONE, False)]
    notfin = outside + [("the session is not complete", [T(DONE, False)]), ("the message was not accepted", [proc("no")]), ("there is no answer", [take("no")])]
    table(ctx, R, f, place_events(f, S + ".encryptor"), [Row("keys", [KEYS], kind="write", never=notfin, always=[("the session is complete", ON + fin)])], "channel")
    for e in place_events(f, SESS, ("shrink",)):
        for t, a in notfin:
            ctx.check(e.p not in live_from(f, None, a), R, f.where(e.n), f"the session is given up although {t}", key=f"{R}:given-up:{t}")
    bad = [("a message is refused", hand + [early, proc("no")]), ("no answer can be made", hand + [early, proc("ok"), take("no")]), ("a message that is no handshake arrives early", data + [early]), ("a handshake starts anew", hand + [st("Completed")])]
    keep = [("a data message is decrypted", data + [st("Completed")]), ("it has failed already", [st("Failed")])]
    table(ctx, R, f, [e for e in states(f) if cv(e.args[-1]) != HS + "Initialized"], [
        Row("completed", [HS + "Completed"], kind="write", never=notfin, always=[("the session is complete", ON + fin)]),
        Row("initiated", [HS + "Initiated{0=0}"], kind="write", never=notfin[:2] + [("the session is complete", [T(DONE, True)]), ("it was already", [st("Initiated")])], always=[("the handshake goes on", ON + good + [INIT, T(DONE, False)])]),
        Row("failed", [HS + "Failed{0=0}"], kind="write", never=keep + [("the handshake is accepted", good + [early])], always=[(t, ON + a) for t, a in bad])], "state")
    for t, a in bad + [("the handshake goes on", open_), ("the handshake is complete", fin), ("the handshake has failed", [V("$2", *INS), st("Failed")])]:
        outcomes(ctx, R, f, t, ON + a, "None")
    for e in place_events(f, "self.%"):
        ctx.check(e.target == "self.replicas" or e.p not in live_from(f, None, ON + [st("Failed")]), R, f.where(e.n), "a failed channel changes", key=f"{R}:failed-quiet")
        ctx.check(e.target == "self.replicas" or e.p not in live_from(f, None, ON + data + [st("Completed")]), R, f.where(e.n), "a data message changes the channel", key=f"{R}:data-quiet")
    # decryption
    dec = call_events(f, "Encryptor::%")
    ENC = S + ".encryptor"
    D = lambda k: f"Encryptor::decrypt({ENC}, $2.{k}.0.payload)"
    table(ctx, R, f, dec, [Row(f"decryption of {k}", [ENC, f"$2.{k}.0.payload"], never=[("there is no channel", [st("Initialized", "Initiated", "Failed")]), ("the message is another", [V("$2", *[x for x in INS if x != k])])],
          always=[(f"{k} on the channel", ON + [V("$2", k), st("Completed"), V(ENC, "ok"), V(f"$2.{k}.0.payload", "ok")])]) for k in OUTS], "decryption")
    for e in dec:
        ctx.check(e.n.d["cal"].m == "decrypt", R, f.where(e.n), "a message is not decrypted", key=f"{R}:decrypt")
    once(ctx, R, f, dec, "decryption")
    keys = {}
    for k in OUTS:
        on = ON + [V("$2", k), st("Completed"), V(ENC, "ok")]
        pl = [V(f"$2.{k}.0.payload", "ok")]
        outcomes(ctx, R, f, f"{k} that is not genuine", on + pl + [V(D(k), "no")], "None")
        outcomes(ctx, R, f, f"{k} without payload", on + [V(f"$2.{k}.0.payload", "no")], "None")
        outcomes(ctx, R, f, f"{k} decrypted", on + pl + [V(D(k), "ok")], f"Msg::{k}{{0=$2.{k}.0}}")
        w = place_events(f, f"$2.{k}.0%")
        table(ctx, R, f, w, [Row(f"plaintext of {k}", [f"Payload{{contents={D(k)}, nonce=%}}"], target=f"$2.{k}.0.payload", kind="write", never=[("it is not genuine", [V(D(k), "no")])])], "plaintext")
        r = live_from(f, None, [V("$2", k)], avoid={e.p for e in w if cv(e.args[-1]).startswith("Payload{contents=Encryptor::decrypt(")})
        off = [p for p, t in ret_values(f) if p in r and any(cv(x) not in ("None",) and not cv(x).startswith("Err") for x in alts(t))]
        ctx.check(not off, R, showp(f, off[0]) if off else f.entry_body.name, f"{k} is delivered without being decrypted", key=f"{R}:plain:{k}")
    for p, t in ret_values(f):
        for x in alts(t):
            s = cv(x)
            ctx.check(s == "None" or s.startswith("Err{") or m([f"Msg::{k}{{0=$2.{k}.0}}" for k in OUTS], s), R, showp(f, p), f"{s[:200]} is delivered", key=f"{R}:delivered")
def variants(ctx, adt):
    return sorted({v[0] for a, d in ctx.prog.adts.items() if a.endswith("::" + adt) for v in d["variants"]})

P = "self.replicas[*].1"
def pst(*v):
    return V(P + ".handshake_state", *v)
def take_out(ctx):
    """What leaves is a handshake message or encrypted by the session of its recipient."""
    R = "leave"
    f = comm(ctx, "take_out_messages")
    Q, PM, ENC = P + ".unencrypted_messages", P + ".pending_handshake_message", P + ".encryptor"
    TP = [f"take({PM})", PM]
    I = Q + "[*]"
    E_ = lambda k: f"Encryptor::encrypt({ENC}, {I}.{k}.0.payload.contents)"
    out = lambda k: f"OutMessage{{msg=Msg::{k}{{0={I}.{k}.0}}}}"
    hs = [f"OutMessage{{msg=Msg::SecureChannelHandshake{{0={t}}}}}" for t in TP]
    # the message with its payload replaced, or a copy of it with another payload
    own = lambda k: [f"OutMessage{{msg=Msg::{k}{{0={I}.{k}.0+{{payload={x}}}}}}}" for x in (E_(k), f"Encryptor::encrypt({ENC}, rec.payload.contents)")]
    sites = {}
    for p, t in ret_values(f):
        n = f.nodes[f.pnodes[p][0]]
        for x in alts(t):
            for nodes, v in elem_sites(f, n, x):
                for y in alts(v):
                    if cv(y) != "new()[*]":
                        sites.setdefault(cv(y), set()).update(q.id for q in nodes)
            ctx.check(not shrinks_before(f, x, n), R, f.where(n), "messages are removed before they are sent", key=f"{R}:removed")
    ctx.need(sites, "messages sent")
    for s in sites:
        ctx.check(m(hs + [x for k in OUTS for x in own(k)] + [out(k) for k in OUTS], s), R, f.entry_body.name, f"a message sent is {s[:300]}", key=f"{R}:message")
    at = lambda s: [p for i in sites.get(s, ()) for p in f.bynode[i]]
    hp = [p for h in hs for s in sites if m(h, s) for p in at(s)]
    pend = lambda v: [V(t, v) for t in TP]
    ctx.check(bool(hp) and not [p for p in hp if p in live_from(f, None, pend("no"))], R, f.entry_body.name, "no handshake message is sent, or one that is not there", key=f"{R}:handshake")
    okk, why = foreach_reach_any(f, hp, pend("ok"))
    ctx.check(okk, R, f.entry_body.name, f"a handshake message is kept back: {why}", key=f"{R}:handshake-kept")
    enc = call_events(f, "Encryptor::%")
    table(ctx, R, f, enc, [Row(f"encryption of {k}", [ENC, f"{I}.{k}.0.payload.contents"], never=[("the handshake is not complete", [pst("Unknown", "Initialized", "Initiated", "Failed")]), ("a handshake message goes first", pend("ok")), ("it is another message", [V(I, *[x for x in OUTS if x != k])])]) for k in OUTS], "encryption")
    for e in enc:
        ctx.check(e.n.d["cal"].m == "encrypt", R, f.where(e.n), "a message is not encrypted", key=f"{R}:encrypt")
    for k in OUTS:
        ps = [p for s in sites if m([out(k)] + own(k), s) for p in at(s)]
        if not ctx.check(bool(ps), R, f.entry_body.name, f"{k} is never sent", key=f"{R}:never:{k}"):
            continue
        w = place_events(f, f"{I}.{k}.0%", ("write", "grow", "shrink"))
        table(ctx, R, f, w, [Row(f"ciphertext of {k}", [E_(k)], kind="write", target=f"{I}.{k}.0.payload", never=[("encryption fails", [V(E_(k), "no")])])], "ciphertext")
        good = {e.p for e in w if m(E_(k), cv(e.args[-1]))}
        hd = [p for h in loops(f, Q) for p in f.bynode[h.id]]
        for nm, r in (("before the payload is encrypted", live_from(f, None, avoid=good)), ("without being encrypted", live_from(f, [q for p in hd for q in [p]], avoid=good))):
            ctx.check(not [p for p in ps if p in r], R, f.entry_body.name, f"{k} is sent {nm}", key=f"{R}:plain:{k}")
        r = live_from(f, None, [V(E_(k), "no")])
        ctx.check(not [p for p in ps if p in r], R, f.entry_body.name, f"{k} is sent although encryption fails", key=f"{R}:failed:{k}")
        okk, why = foreach_states(f, ps, Q, [V(I, k), V(E_(k), "ok"), V(f"{I}.{k}.0.payload", "ok"), V(ENC, "ok")])
        ctx.check(okk, R, f.entry_body.name, f"{k} is lost: {why}", key=f"{R}:lost:{k}")
        for p in ps:
            ctx.check(not [q for q in f.reach([p], avoid=set(hd), skip_start=True) if q in set(ps)], R, showp(f, p), f"{k} is sent twice", key=f"{R}:twice:{k}")
    sent = [pst("Completed"), V(ENC, "ok")] + pend("no")
    ql = [h for h in loops(f, Q)]
    ctx.need(ql, "loop over the waiting messages")
    okk, why = foreach_reach_any(f, [p for h in ql for p in f.bynode[h.id]], sent)
    ctx.check(okk, R, f.entry_body.name, f"waiting messages are kept although the channel is open: {why}", key=f"{R}:kept")
    # effects
    ev = place_events(f, "self.%")
    drain = [e for e in ev if e.target == Q]
    for e in ev:
        ctx.check(e.target in (PM, Q) or e.target.startswith(I), R, f.where(e.n), f"taking messages has another effect: {e.text()[:200]}", key=f"{R}:effect")
    table(ctx, R, f, drain, [Row("waiting messages taken", None, kind=("shrink", "write"), never=[("the handshake is not complete", [pst("Unknown", "Initialized", "Initiated", "Failed")]), ("a handshake message goes first", pend("ok"))])], "waiting")
    for e in drain:
        ctx.check(e.kind == "shrink" and (e.n.d["cal"].m == "take" or e.n.d["cal"].m == "drain" and m(["RangeFull", "RangeFull%"], cv(e.args[-1]))) or e.kind == "write" and cv(e.args[-1]) in ("new()",), R, f.where(e.n), "only some of the waiting messages are taken", key=f"{R}:some")
    table(ctx, R, f, [e for e in ev if e.target == PM], [Row("handshake message taken", None, kind=("shrink", "write"))], "handshake")
    starts = [t for h in peers(f) for _, t in h[1]]
    for e in ev:
        if e.target == PM and e.kind == "write":
            ctx.check(e.p not in live_from(f, starts, pend("ok"), avoid=set(hp) | {p for h in peers(f) for p in f.bynode[h[0].id]}), R, f.where(e.n), "a handshake message is dropped", key=f"{R}:handshake-dropped")
    # every peer is visited
    for h, ok, no in peers(f):
        r = live_from(f, [t for _, t in ok], avoid=set(f.bynode[h.id]))
        ctx.check(not [p for p in f.ends() if p in r], R, f.where(h), "the messages of some peers are kept back", key=f"{R}:all-peers")
    for n in f.calls(m={"rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "swap", "next_back", "pop", "swap_remove"}):
        ctx.bad(R, f.where(n), "messages are sent in another order", key=f"{R}:reorder")
    for e in f.calls(m={"insert"}):
        if is_local_coll(f.argt(e, 0, f.env_of(f.bynode[e.id][0]))):
            ctx.bad(R, f.where(e), "messages are sent in another order", key=f"{R}:reorder")
def peers(f):
    """The loops over the peers: (head, edges to the next peer, edges to the end)."""
    out = []
    for h in loops(f, "self.replicas") + loops(f, P):
        ok, no = loop_edges(f, h, "self.replicas")
        if not ok:
            ok, no = loop_edges(f, h, P)
        out.append((h, ok, no))
    return out
def foreach_reach_any(f, ps, ass):
    """Every peer under the assumptions leads to one of the states."""
    why = "no loop over the peers"
    for h, ok, no in peers(f):
        r = live_from(f, [t for _, t in ok], ass, avoid=set(ps))
        if not [p for p in f.bynode[h.id] if p in r] and not [p for p in f.ends() if p in r]:
            return True, ""
        why = "skipped in the loop at " + f.where(h)
    return False, why

def lifecycle(ctx):
    """Failed handshakes are retried, unanswered ones fail, channels end with membership."""
    R = "life"
    f = comm(ctx, "make_tick")
    FT, IT = P + ".handshake_state.Failed.0", P + ".handshake_state.Initiated.0"
    LIM, TO = "self.config.handshake_retry_tick", P + ".handshake_initiated_tick_timeout"
    inc = lambda x: [f"(1 Add {x})", f"({x} Add 1)"]
    late, early = [pst("Initiated"), REL(inc(IT), ">=", TO)], [pst("Initiated"), REL(inc(IT), "<", TO)]
    still = [("the handshake is not failed", [pst("Unknown", "Initialized", "Initiated", "Completed")])]
    wait = [("the handshake is not waiting", [pst("Unknown", "Initialized", "Completed", "Failed")])]
    ev = place_events(f, "self.%")
    S_ = P + ".handshake_state"
    table(ctx, R, f, ev, [
        Row("failed for longer", [[f"HandshakeState::Failed{{0={x}}}" for x in inc(FT)]], kind="write", target=S_, never=still),
        Row("timed out", ["HandshakeState::Failed{0=0}"], kind="write", target=S_, never=wait + [("there is time left", early)]),
        Row("waiting for longer", [[f"HandshakeState::Initiated{{0={x}}}" for x in inc(IT)]], kind="write", target=S_, never=wait + [("the time is over", late)]),
        Row("reset", ["HandshakeState::Unknown"], kind="write", target=S_, never=[("it has not failed", [pst("Unknown", "Initialized", "Completed")]), ("it is too early", [REL([FT] + inc(FT), "<", LIM)])]),
        Row("message dropped", ["None"], kind="write", target=P + ".pending_handshake_message"),
        Row("session dropped", ["None"], kind="write", target=P + ".handshake_session"),
        Row("keys dropped", ["None"], kind="write", target=P + ".encryptor")], "tick")
    by = lambda pat: [e.p for e in ev if e.target == S_ and m(pat, cv(e.args[-1]))]
    for nm, ps, a in (("a failed handshake does not count the ticks", by("HandshakeState::Failed{0=(%"), [pst("Failed")]), ("a waiting handshake does not count the ticks", by("HandshakeState::Initiated{0=(%"), early), ("a handshake without answer goes on", by("HandshakeState::Failed{0=0}"), late)):
        okk, why = foreach_reach_any(f, ps, a)
        ctx.check(okk, R, f.entry_body.name, f"{nm}: {why}", key=f"{R}:{nm}")
    res = by("HandshakeState::Unknown")
    okk, why = foreach_reach_any(f, res, [pst("Failed"), REL([FT] + inc(FT), ">=", LIM)])
    ctx.check(okk, R, f.entry_body.name, f"a failed handshake is not retried: {why}", key=f"{R}:retry")
    # the limit is compared with the ticks counted
    cnt = {p for p in by("HandshakeState::Failed{0=(%")}
    hd = {p for h in loops(f, "self.replicas") + loops(f, P) for p in f.bynode[h.id]}
    for part in ("pending_handshake_message", "handshake_session", "encryptor"):
        both(ctx, R, f, [e.p for e in ev if e.target == P + "." + part], res, f"reset of the state and of {part}")
    stal = {n.id: n for n, op, o in place_reads(f, FT) if o is not None and m([LIM], o)}
    for p, o in enumerate(f.psucc):
        for t, ff in o or []:
            if any(k[0] in ("lt", "eq") and len(k) == 3 and any(m(FT, ck(x)) for x in k[1:]) and any(m(LIM, ck(x)) for x in k[1:]) for k, v in ff):
                stal[f.pnodes[p][0]] = f.nodes[f.pnodes[p][0]]
    r = live_from(f, [t for h in peers(f) for _, t in h[1]], [pst("Failed")], avoid=cnt | hd)
    for n in stal.values():
        ctx.check(not [p for p in f.bynode[n.id] if p in r], R, f.where(n), "the retry is decided before the tick counts", key=f"{R}:retry-order")
    g = comm(ctx, "process_cluster_change")
    ME = "self.replica_id"
    gone = [T(f"contains($2, {ME})", False), REL("$2[*]", "<>", ME)]
    here = [T(f"contains($2, {ME})", True), REL("$2[*]", "=", ME)]
    K = "self.replicas[*].0"
    table(ctx, R, g, place_events(g, "self.%"), [
        Row("all peers dropped", [], kind=("shrink", "write"), target="self.replicas", always=[("the replica leaves", gone)])], "cluster change", exhaustive=False)
    for e in place_events(g, "self.%"):
        ctx.check(e.target == "self.replicas" and (e.kind == "shrink" or e.kind == "write" and m(["new()", "default()"], cv(e.args[-1]))), R, g.where(e.n), f"a cluster change has another effect: {e.text()[:200]}", key=f"{R}:cluster")
        if e.args and m(K, cv(e.args[0])):
            r = iteration(g, "self.replicas", [T(f"contains($2, {K})", True)])
            ctx.check(e.p not in r, R, g.where(e.n), "a member of the cluster is dropped", key=f"{R}:member")
        elif e.kind == "write" or e.n.d.get("cal") is None or e.n.d["cal"].m not in ("retain",):
            ctx.check(e.p not in live_from(g, None, [T(f"contains($2, {ME})", True)]), R, g.where(e.n), "all peers are dropped although the replica stays", key=f"{R}:all")
    rm = [e.p for e in place_events(g, "self.replicas", ("shrink",)) if e.args and m(K, cv(e.args[0]))]
    okk, why = foreach_states(g, rm, "self.replicas", [T(f"contains($2, {K})", False)], base=[T(f"contains($2, {ME})", True)])
    ctx.check(bool(rm) and okk, R, g.entry_body.name, f"a channel to a former member is kept: {why}", key=f"{R}:former")
    h = comm(ctx, "init")
    table(ctx, R, h, place_events(h, "self.%"), [
        Row("replica", ["$2"], kind="write", target="self.replica_id", always=[("initialised", [])]),
        Row("logger", ["$3"], kind="write", target="self.logger"),
        Row("configuration", ["$5"], kind="write", target="self.config", always=[("initialised", [])])], "initialisation")
    table(ctx, R, h, call_events(h, "HandshakeSessionProvider::%"), [Row("sessions", ["self.handshake_session_provider", None, "$4", ["self.config.reference_values", "$5.reference_values"], ["self.config.endorsements", "$5.endorsements"]], always=[("initialised", [])])], "initialisation")
    w = {e.p for e in place_events(h, "self.config")}
    for e in call_events(h, "HandshakeSessionProvider::%"):
        ctx.check(e.n.d["cal"].m == "init", R, h.where(e.n), "sessions are not initialised", key=f"{R}:init")
        if "self.config" in cv(e.args[3]) + cv(e.args[4]):
            ctx.check(e.p not in live_from(h, None, avoid=w), R, h.where(e.n), "sessions get the configuration before it is set", key=f"{R}:init-order")

# ---------------------------------------------------------------- handshake sessions
def handshake(ctx):
    """A handshake session completes only when the attested session is open."""
    R = "handshake"
    enc = "$2.encryption"
    np = enc + ".NoiseProtocol.0.message"
    for who, mine, other, req, inner, iv in (
            ("Client", "RecipientResponse", "InitiatorRequest", "SessionResponse", "SessionRequest", "Initiated"),
            ("Server", "InitiatorRequest", "RecipientResponse", "SessionRequest", "SessionResponse", None)):
        T_ = who + "HandshakeSession"
        api = lambda me: ctx.api(T_, "HandshakeSession", me)
        s = lambda *v: V("self.state", *v)
        f = api("process_message")
        part = f"{np}.{mine}.0.message"
        M = f"{part}.{req}.0"
        PUT = f"OakSession::put_incoming_message(self.session, {M})"
        valid = [V(enc, "ok"), V(np, "ok"), V(np + "?", mine), V(part, "ok")]
        wrong = [("no encryption", [V(enc, "no")]), ("no protocol message", [V(enc, "ok"), V(np, "no")]), ("a message of the same role", [V(enc, "ok"), V(np, "ok"), V(np + "?", other)]), ("an empty message", [V(enc, "ok"), V(np, "ok"), V(np + "?", mine), V(part, "no")])]
        active = ["Initiated"] if who == "Client" else ["Unknown", "Initiated"]
        idle = [x for x in ("Unknown", "Initiated", "Completed", "Failed") if x not in active]
        done = [s("Completed", "Failed")]
        put = call_events(f, "OakSession::%")
        table(ctx, R, f, put, [Row(f"{who}: message given to the session", ["self.session", M], never=[("the session does not wait for a message", [s(*idle)])] + wrong, always=[("a message is due", [s(*active)] + valid)])], "handshake")
        for e in put:
            ctx.check(e.n.d["cal"].m == "put_incoming_message", R, f.where(e.n), f"a message is used for {e.n.d['cal'].m}", key=f"{R}:{who}:put")
        once(ctx, R, f, put, f"{who}: giving a message to the session")
        okm = [s(*active)] + valid + [V(PUT, "ok")]
        refused = [s(*active)] + valid + [V(PUT, "no")]
        early = [("a message before the first request", [s("Unknown")])] if who == "Client" else []
        bad = early + [("the session refuses it", refused)] + [(f"{t}", [s(*active)] + a) for t, a in wrong]
        ev = place_events(f, "self.%")
        rows = [Row(f"{who}: failed", ["State::Failed"], kind="write", target="self.state", never=[("the message is accepted", okm), ("the handshake is over", done)], always=bad)]
        if who == "Server":
            rows.append(Row("Server: initiated", ["State::Initiated"], kind="write", target="self.state", never=[("the handshake is over", done)], always=[("the first message is accepted", [s("Unknown")] + valid + [V(PUT, "ok")])]))
        table(ctx, R, f, ev, rows, "state")
        af = f.reach([e.p for e in ev if m("State::Failed", cv(e.args[-1]))], skip_start=True)
        for e in ev:
            ctx.check(e.p not in af or m("State::Failed", cv(e.args[-1])), R, f.where(e.n), f"{who}: a failed handshake goes on", key=f"{R}:{who}:revived")
        outcomes(ctx, R, f, f"{who}: message accepted", okm, "()")
        outcomes(ctx, R, f, f"{who}: message after the end", done, "()")
        for t, a in bad:
            outcomes(ctx, R, f, f"{who}: {t}", a, "Err{%")
        # outgoing
        g = api("take_out_message")
        GET, OPEN = "OakSession::get_outgoing_message(self.session)", "OakSession::is_open(self.session)"
        talk = ["Unknown", "Initiated"] if who == "Client" else ["Initiated"]
        mute = [x for x in ("Unknown", "Initiated", "Completed", "Failed") if x not in talk]
        msg_ = f"SecureChannelHandshake{{recipient_replica_id=self.peer_replica_id, sender_replica_id=self.self_replica_id, encryption=Encryption::NoiseProtocol{{0=NoiseProtocol{{message=Message::{other}{{0={other}{{message=Message::{inner}{{0={GET}}}}}}}}}}}}}"
        for t, a, w in (("the session has a message", [s(*talk), V(GET, "ok"), V(GET + "?", "ok")], msg_), ("the session has no message", [s(*talk), V(GET, "ok"), V(GET + "?", "no")], "None"), ("the session fails", [s(*talk), V(GET, "no")], "Err{%"), ("nothing is due", [s(*mute)], "None")):
            outcomes(ctx, R, g, f"{who}: {t}", a, w)
        quiet(ctx, R, g, f"{who}: nothing is due", [s(*mute)])
        gc = call_events(g, "OakSession::get_outgoing_message")
        table(ctx, R, g, gc, [Row(f"{who}: message of the session", ["self.session"], never=[("nothing is due", [s(*mute)])], always=[("a message may be due", [s(*talk)])])], "handshake")
        once(ctx, R, g, gc, f"{who}: taking a message of the session")
        for e in call_events(g, "OakSession::%"):
            ctx.check(e.n.d["cal"].m in ("get_outgoing_message", "is_open"), R, g.where(e.n), f"the session is used for {e.n.d['cal'].m}", key=f"{R}:{who}:use")
        rows = [Row(f"{who}: completed", ["State::Completed"], kind="write", target="self.state", never=[("the session is not open", [T(OPEN, False)]), ("nothing is due", [s(*mute)]), ("the session fails", [V(GET, "no")])], always=[("the session is open", [s("Initiated"), V(GET, "ok"), T(OPEN, True)])]),
                Row(f"{who}: failed", ["State::Failed"], kind="write", target="self.state", never=[("the session goes on", [V(GET, "ok")])], always=[("the session fails", [s(*talk), V(GET, "no")])])]
        if who == "Client":
            rows.append(Row("Client: initiated", ["State::Initiated"], kind="write", target="self.state", never=[("it was before", [s("Initiated")]), ("the session fails", [V(GET, "no")])], always=[("the first message is taken", [s("Unknown"), V(GET, "ok")])]))
        table(ctx, R, g, place_events(g, "self.%"), rows, "state")
        # whether it is open is asked after the message was taken
        for e in call_events(g, "OakSession::is_open"):
            ctx.check(e.p not in live_from(g, None, avoid={x.p for x in gc}), R, g.where(e.n), "completion is decided before the last message is taken", key=f"{R}:{who}:order")
        # completion and keys
        c = api("is_completed")
        for v, w in (("Completed", True), ("other", False)):
            for p, t in ret_values(c):
                for x in alts(t):
                    x = cv(x)
                    ctx.check(m(["eq(self.state, State::Completed)", "eq(State::Completed, self.state)", "true", "false", "matches%"], x), R, showp(c, p), f"{who}: completion is {x[:200]}", key=f"{R}:{who}:completed")
        tr = [p for p, t in ret_values(c) if any(cv(x) == "true" for x in alts(t))]
        fa = [p for p, t in ret_values(c) if any(cv(x) == "false" for x in alts(t))]
        ctx.check(not set(tr) & live_from(c, None, [s("Unknown", "Initiated", "Failed")]) - set(fa), R, c.entry_body.name, f"{who}: a session is complete too early", key=f"{R}:{who}:complete-early")
        ctx.check(not set(fa) & live_from(c, None, [s("Completed")]) - set(tr), R, c.entry_body.name, f"{who}: a complete session is not", key=f"{R}:{who}:complete-not")
        k = api("get_encryptor")
        outcomes(ctx, R, k, f"{who}: keys of a complete session", [s("Completed")], f"Default{who}Encryptor{{session=self.session}}")
        outcomes(ctx, R, k, f"{who}: keys of an incomplete session", [s("Unknown", "Initiated", "Failed")], "None")
    # provider
    P_ = "DefaultHandshakeSessionProvider"
    f = ctx.api(P_, "HandshakeSessionProvider", "get")
    for role, who in (("Initiator", "client"), ("Recipient", "server")):
        src = f"OakSessionFactory::get_oak_{who}_session(self.session_factory)"
        outcomes(ctx, R, f, f"session of the {role}", [V("$4", role), V(src, "ok")], f"{who.capitalize()}HandshakeSession{{%self_replica_id=$2, peer_replica_id=$3, session={src}, state=State::Unknown}}")
        outcomes(ctx, R, f, f"no session for the {role}", [V("$4", role), V(src, "no")], "Err{%")
    g = ctx.api(P_, "HandshakeSessionProvider", "init")
    table(ctx, R, g, call_events(g, "OakSessionFactory::%"), [Row("factory initialised", ["self.session_factory", "$3", "$4", "$5"], always=[("initialised", [])])], "initialisation")

def cipher(ctx):
    """Payloads are the session's ciphertext of the plaintext, and back."""
    R = "cipher"
    for who, snd_, rcv in (("Client", "Request", "Response"), ("Server", "Response", "Request")):
        T_ = f"Default{who}Encryptor"
        f = ctx.api(T_, "Encryptor", "encrypt")
        W, G = "OakSession::write(self.session, $2)", "OakSession::get_outgoing_message(self.session)"
        q = G + "." + snd_.lower()
        ok_ = [V(W, "ok"), V(G, "ok"), V(G + "?", "ok"), V(q, "ok"), V(q + "?", "EncryptedMessage"), V(q + ".EncryptedMessage.0.nonce", "ok")]
        outcomes(ctx, R, f, f"{who}: encryption", ok_, f"Payload{{contents={q}.EncryptedMessage.0.ciphertext, nonce={q}.EncryptedMessage.0.nonce}}")
        for t, a in (("the plaintext is refused", [V(W, "no")]), ("the session fails", [V(W, "ok"), V(G, "no")]), ("there is no message", ok_[:2] + [V(G + "?", "no")]), ("the message is empty", ok_[:3] + [V(q, "no")]), ("the message is another", ok_[:4] + [V(q + "?", "AttestRequest", "HandshakeRequest", "AttestResponse", "HandshakeResponse")])):
            outcomes(ctx, R, f, f"{who}: {t}", a, "Err{%")
        order(ctx, R, f, who, W.split("(")[0], ["self.session", "$2"], G.split("(")[0], W)
        g = ctx.api(T_, "Encryptor", "decrypt")
        msg_ = f"Session{rcv}{{{rcv.lower()}={rcv}::EncryptedMessage{{0=EncryptedMessage{{ciphertext=$2.contents, associated_data=%, nonce=$2.nonce}}}}}}"
        PUT, RD = f"OakSession::put_incoming_message(self.session, {msg_})", "OakSession::read(self.session)"
        ok_ = [V(PUT, "ok"), V(RD, "ok"), V(RD + "?", "ok")]
        outcomes(ctx, R, g, f"{who}: decryption", ok_, RD)
        for t, a in (("the message is refused", [V(PUT, "no")]), ("the session fails to read", [V(PUT, "ok"), V(RD, "no")]), ("there is no plaintext", [V(PUT, "ok"), V(RD, "ok"), V(RD + "?", "no")])):
            outcomes(ctx, R, g, f"{who}: {t}", a, "Err{%")
        order(ctx, R, g, who, PUT.split("(")[0], ["self.session", msg_], "OakSession::read", PUT)
        for h in (f, g):
            quiet(ctx, R, h, f"{who}: {h.entry_body.name.split('::')[-1]}", [])
def order(ctx, R, f, who, first, args, second, res):
    a, b = call_events(f, first), call_events(f, second)
    table(ctx, R, f, a, [Row(f"{who}: {first}", args, always=[("called", [])])], "session")
    table(ctx, R, f, b, [Row(f"{who}: {second}", ["self.session"], never=[(f"{first} fails", [V(res, "no")])], always=[(f"{first} succeeds", [V(res, "ok")])])], "session")
    once(ctx, R, f, a, first)
    once(ctx, R, f, b, second)
    pa = {e.p for e in a}
    for e in b:
        ctx.check(e.p not in live_from(f, None, avoid=pa), R, f.where(e.n), f"{second} comes before {first}", key=f"{R}:{who}:order:{second}")
    for e in call_events(f, "OakSession::%"):
        ctx.check(e.n.d["cal"].m in (first.split("::")[1], second.split("::")[1]), R, f.where(e.n), f"the session is used for {e.n.d['cal'].m}", key=f"{R}:{who}:use")

def attest(ctx):
    """Sessions attest both sides, against the configured reference values."""
    R = "attest"
    F = "DefaultOakSessionFactory"
    f = ctx.api(F, "OakSessionFactory", "init")
    OC = "$3.type.OakContainers.0"
    RL = OC + ".root_layer"
    layers = [V(f"{OC}.{x}_layer", "ok") for x in ("kernel", "system", "container")]
    oc = [V("$3.type", "ok"), V("$3.type?", "OakContainers")]
    insec = oc + layers + [V(RL, "ok"), V(RL + ".insecure", "ok")]
    sev = oc + layers + [V(RL, "ok"), V(RL + ".insecure", "no"), V(RL + ".amd_sev", "ok"), V(RL + ".amd_sev.stage0", "ok")]
    INS, SEV, DICE = "InsecureAttestationVerifier::new($2, %)", f"AmdSevSnpDiceAttestationVerifier::new(AmdSevSnpPolicy::new({RL}.amd_sev), FirmwarePolicy::new({RL}.amd_sev.stage0), %, $2)", "DiceAttestationVerifier::create($3, $2)"
    other = [("no reference values", [V("$3.type", "no")]), ("restricted kernel", [V("$3.type", "ok"), V("$3.type?", "OakRestrictedKernel", "Cb")]), ("no root layer", oc + [V(RL, "no")])] + [(f"no {x} layer", oc + [V(f"{OC}.{x}_layer", "no")]) for x in ("kernel", "system", "container")] + \
            [("nothing to verify the root layer", oc + [V(RL, "ok"), V(RL + ".insecure", "no"), V(RL + ".amd_sev", "no")]), ("no firmware reference", oc + [V(RL, "ok"), V(RL + ".insecure", "no"), V(RL + ".amd_sev", "ok"), V(RL + ".amd_sev.stage0", "no")])]
    secure = ("hardware attestation is required", [V(RL + ".insecure", "no")])
    ev = [e for e in place_events(f, "self.%")]
    ver, key = [e for e in ev if e.target == "self.peer_verifier"], [e for e in ev if e.target == "self.key_extractor"]
    table(ctx, R, f, ver, [
        Row("insecure verifier", [INS], kind="write", never=[secure] + other),
        Row("hardware verifier", [SEV], kind="write", never=other + [("the reference values allow no hardware", insec)]),
        Row("restricted kernel verifier", [DICE], kind="write", never=[("containers without hardware", insec), ("containers on hardware", sev)])], "verifier")
    table(ctx, R, f, key, [
        Row("binding key", ["DefaultBindingKeyExtractor"], kind="write", never=other),
        Row("signing key", ["DefaultSigningKeyExtractor"], kind="write", never=[("containers without hardware", insec), ("containers on hardware", sev)])], "key")
    for nm, a in (("containers without hardware", insec), ("containers on hardware", sev)) + tuple(other):
        for what, es in (("verifier", ver), ("key", key)):
            r = live_from(f, None, a, avoid={e.p for e in es})
            ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, f"{nm}: no {what} is set", key=f"{R}:{what}:{nm}")
    table(ctx, R, f, [e for e in ev if e not in ver + key], [Row("endorsements", ["$4"], kind="write", target="self.endorsements", always=[("initialised", [])])], "initialisation")
    pol = [f"KernelPolicy::new({OC}.kernel_layer)", f"SystemPolicy::new({OC}.system_layer)", f"ContainerPolicy::new({OC}.container_layer)"]
    for i, mk in ((1, "InsecureAttestationVerifier::new"), (2, "AmdSevSnpDiceAttestationVerifier::new")):
        cs = call_events(f, mk)
        ctx.need(cs, mk)
        for e in cs:
            got = [v for _, v in elem_sites(f, e.n, e.args[i])]
            for want in pol:
                ctx.check(any(m(want, cv(v)) for v in got), R, f.where(e.n), f"{mk}: the policy {want} is left out: {[cv(v)[:120] for v in got]}", key=f"{R}:policy:{mk}:{want.split(':')[0]}")
    # sessions
    for who in ("client", "server"):
        S_ = who.capitalize() + "Session"
        g = ctx.api(F, "OakSessionFactory", f"get_oak_{who}_session")
        AT, BI = "OakAttesterFactory::get(self.attester_factory)", "OakSessionBinderFactory::get(self.session_binder_factory)"
        gen = f"EndorsedEvidenceBindableAssertionGenerator::new({AT}, DefaultEndorser{{endorsements=self.endorsements}}, {BI})"
        vrf = "EndorsedEvidenceBoundAssertionVerifier::new(self.peer_verifier, SignatureBindingVerifierProvider::new(self.key_extractor))"
        mk = call_events(g, f"{S_}::create")
        ctx.need(mk, f"{S_}::create")
        for e in mk:
            chain, t = {}, e.args[0]
            while t[0] == "call" and t[1].startswith("SessionConfig") or t[0] == "call" and t[1] in CFG:
                chain.setdefault(t[1].split("::")[-1], []).append([cv(x) for x in t[2]])
                t = t[2][0] if t[2] else ("undef",)
            for step, want in (("builder", ["AttestationType::Bidirectional", "HandshakeType::NoiseNN"]), ("add_self_assertion_generator", ["%", "%", gen]), ("add_peer_assertion_verifier", ["%", "%", vrf]), ("set_encryption_provider", ["%", "DefaultEncryptorProvider"]), ("set_assertion_attestation_aggregator", ["%", "PassThrough"])):
                got = chain.get(step, [])
                ctx.check(len(got) == 1 and len(got[0]) == len(want) and all(m(w, x) for w, x in zip(want, got[0])), R, g.where(e.n), f"the {who} session is configured with {step}: {[x[1:] for x in got]}"[:600], key=f"{R}:{who}:{step}")
            ids = {x[1] for st_ in ("add_self_assertion_generator", "add_peer_assertion_verifier") for x in chain.get(st_, []) if len(x) > 1}
            ctx.check(len(ids) == 1, R, g.where(e.n), f"the assertions of both sides have different names: {sorted(ids)}", key=f"{R}:{who}:id")
            (IDS := ctx.__dict__.setdefault("_assertion_ids", set())).update(ids)
        got = f"{S_}::create(%)"
        outcomes(ctx, R, g, f"{who}: session", [V(AT, "ok"), V(BI, "ok"), V("self.peer_verifier", "ok"), V("self.key_extractor", "ok"), V(got, "ok")], f"DefaultOak{S_}{{inner={got}}}")
        for t, a in (("no evidence", [V(AT, "no")]), ("no session binder", [V(AT, "ok"), V(BI, "no")]), ("no session", [V(got, "no")])):
            for p, x in ret_values(g):
                if p in live_from(g, None, a):
                    for y in alts(x):
                        ctx.check(cv(y).startswith("Err{"), R, showp(g, p), f"{who}: {t}: the result is {cv(y)[:200]}", key=f"{R}:{who}:{t}")
        for p, x in ret_values(g):
            if p in live_from(g, None, [V("self.peer_verifier", "no")]):
                for y in alts(x):
                    ctx.check(cv(y).startswith("Err{"), R, showp(g, p), f"{who}: a session is created without a verifier", key=f"{R}:{who}:unverified")
        # the wrapper passes everything on
        W_ = f"DefaultOak{S_}"
        for me, want, args in (("put_incoming_message", "%put_incoming_message(self.inner, $2)", ["self.inner", "$2"]), ("get_outgoing_message", "%get_outgoing_message(self.inner)", ["self.inner"]), ("is_open", "%is_open(self.inner)", ["self.inner"]), ("write", "%write(self.inner, PlaintextMessage{plaintext=$2})", ["self.inner", "PlaintextMessage{plaintext=$2}"])):
            h = ctx.api(W_, "OakSession", me)
            outcomes(ctx, R, h, f"{who}: {me}", [], want)
            table(ctx, R, h, [e for e in call_events(h, "%::" + me)], [Row(f"{who}: {me}", args, always=[("called", [])])], "session")
        h = ctx.api(W_, "OakSession", "read")
        RD = "%read(self.inner)"
        outcomes(ctx, R, h, f"{who}: message read", [V(RD, "ok"), V(RD + "?", "ok")], RD + ".plaintext")
        outcomes(ctx, R, h, f"{who}: no message", [V(RD, "ok"), V(RD + "?", "no")], "None")
        outcomes(ctx, R, h, f"{who}: reading fails", [V(RD, "no")], "Err{%")
    ids = ctx.__dict__.get("_assertion_ids", set())
    ctx.check(len(ids) == 1, R, F, f"client and server name their assertions differently: {sorted(ids)}", key=f"{R}:ids")
CFG = set()
