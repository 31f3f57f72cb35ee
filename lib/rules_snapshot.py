"""Transfer of raft snapshots: roles, sender, receiver."""
from rlib import *
from rules_storage import outcomes, quiet, PANIC
from rules_coord import once, both

def api(ctx, st, tr, me):
    return ctx.api(st, tr, me)
def stale(ctx, R, f, pat, other, side, what):
    """The field is compared with `other` only before / after it is written."""
    w = [e.p for e in place_events(f, pat, ("write",))]
    after = f.reach(w, skip_start=True)
    pre = live_from(f, None, avoid=set(w))
    for n, op, o in place_reads(f, pat):
        if o is not None and m(other, o):
            off = [p for p in f.bynode[n.id] if (p in after if side == "before" else p in pre)]
            ctx.check(not off, R, f.where(n), f"{what} is compared with its {'new' if side == 'before' else 'previous'} value", key=f"{R}:stale:{pat}")

def state(v):
    return V("self.state", v)
def roles(ctx):
    R = "role"
    P = "DefaultSnapshotProcessor"
    f = api(ctx, P, "SnapshotProcessor", "process_cluster_change")
    LID, LT = ["self.leader_id", "$2"], ["self.leader_term", "$3"]
    ME, MEM = "self.replica_id", "$4"
    member = [T(f"contains({MEM}, {ME})", True), REL(f"{MEM}[*]", "=", ME), V(f"next({MEM})", "ok")]
    gone = [T(f"contains({MEM}, {ME})", False), REL(f"{MEM}[*]", "<>", ME)]
    same = [REL("self.leader_id", "=", "$2"), REL("self.leader_term", "=", "$3")]
    changes = [("the leader changes", [REL("self.leader_id", "<>", "$2")]), ("the term changes", [REL("self.leader_term", "<>", "$3")]), ("the replica leaves", gone)]
    lead, follow = [REL(LID, "=", ME)], [REL(LID, "<>", ME)]
    for nm, st, other, ev in (("sender", "Leader", "Follower", call_events(f, "SnapshotSenderImpl::reset", "self.sender")), ("receiver", "Follower", "Leader", call_events(f, "SnapshotReceiverImpl::reset", "self.receiver"))):
        table(ctx, R, f, ev, [Row(f"reset of the {nm}", ["self." + nm], always=[(f"{t} while {st}", [state(st)] + a) for t, a in changes],
              never=[(f"the replica is {other}", [state(other)])])], "reset")
        once(ctx, R, f, ev, f"reset of the {nm}")
    for nm, ev in (("sender", call_events(f, "SnapshotSenderImpl::reset")), ("receiver", call_events(f, "SnapshotReceiverImpl::reset"))):
        off = [e for e in ev if e.p in live_from(f, None, same + member)]
        ctx.check(not off, R, f.where(off[0].n) if off else "", f"the {nm} is reset although nothing changed", key=f"{R}:spurious:{nm}")
    outcomes(ctx, R, f, "not initialised", [state("Unknown")], PANIC)
    for t, a in changes:
        outcomes(ctx, R, f, f"{t} while leading", [state("Leader")] + a, "SnapshotSenderImpl::reset(self.sender)")
        outcomes(ctx, R, f, f"{t} while following", [state("Follower")] + a, "new()")
    outcomes(ctx, R, f, "nothing changed", same + member, "new()")
    table(ctx, R, f, [e for e in place_events(f, "self.%")], [
        Row("leader", ["$2"], kind="write", target="self.leader_id", always=[("the cluster changed", [state(s)]) for s in ("Leader", "Follower")]),
        Row("term", ["$3"], kind="write", target="self.leader_term", always=[("the cluster changed", [state(s)]) for s in ("Leader", "Follower")]),
        Row("becomes leader", ["ReplicaState::Leader"], kind="write", target="self.state", never=[("another replica leads", follow)], always=[("a follower is elected", [state("Follower")] + lead + changes[0][1])]),
        Row("becomes follower", ["ReplicaState::Follower"], kind="write", target="self.state", never=[("this replica leads", lead)], always=[("a leader is replaced", [state("Leader")] + follow + changes[0][1])])], "state")
    stale(ctx, R, f, "self.leader_id", "$2", "before", "the leader")
    stale(ctx, R, f, "self.leader_term", "$3", "before", "the term")
    stale(ctx, R, f, "self.leader_id", ME, "after", "the leader")
    # the reset is decided and done in the role held before
    sw = [e.p for e in place_events(f, "self.state")]
    r = f.reach(sw, skip_start=True)
    off = [e for e in call_events(f, ["SnapshotSenderImpl::reset", "SnapshotReceiverImpl::reset"]) if e.p in r]
    ctx.check(not off, R, f.where(off[0].n) if off else "", "sender or receiver is reset after the role has changed", key=f"{R}:order")

    g = api(ctx, P, "SnapshotProcessor", "mut_processor")
    quiet(ctx, R, g, "obtaining the processor", [])
    for st, v, nm in (("Leader", "Sender", "sender"), ("Follower", "Receiver", "receiver")):
        outcomes(ctx, R, g, f"processor of a {st}", [state(st)], f"SnapshotProcessorRole::{v}{{0=self.{nm}}}")
        ev = call_events(g, f"Snapshot{v}Impl::set_instant")
        table(ctx, R, g, ev, [Row(f"time of the {nm}", ["self." + nm, "$2"], always=[(f"replica is {st}", [state(st)])])], "time")
    outcomes(ctx, R, g, "processor before initialisation", [state("Unknown")], PANIC)

    h = api(ctx, P, "SnapshotProcessor", "init")
    outcomes(ctx, R, h, "initialised twice", [REL("self.state", "<>", "ReplicaState::Unknown"), V("self.state", "Leader", "Follower")], PANIC)
    table(ctx, R, h, place_events(h, "self.%"), [
        Row("replica", ["$3"], kind="write", target="self.replica_id", always=[("initialised", [])]),
        Row("role", ["ReplicaState::Follower"], kind="write", target="self.state", always=[("initialised", [])])], "initialisation")
    ID = ["self.replica_id", "$3"]
    table(ctx, R, h, call_events(h, "%::init"), [
        Row("sender", ["self.sender", "$2", ID, "$4"], always=[("initialised", [])]),
        Row("receiver", ["self.receiver", "$2", ID], always=[("initialised", [])])], "initialisation")
    w = [e.p for e in place_events(h, "self.replica_id")]
    for e in call_events(h, "%::init"):
        if cv(e.args[2]) == "self.replica_id":
            ctx.check(e.p not in live_from(h, None, avoid=set(w)), R, h.where(e.n), "the replica id is passed on before it is set", key=f"{R}:init-order")
    new = ctx.api(P, None, "new")
    outcomes(ctx, R, new, "creation", [], "DefaultSnapshotProcessor{%state=ReplicaState::Unknown, sender=$1, receiver=$2}")

SND = "DefaultSnapshotSender"
RC = "self.receivers"
def snd(ctx, me, tr="SnapshotSender"):
    return ctx.api(SND, tr, me)
def count_of(size, chunk):
    return [f"((({size} Sub 1) Div {chunk}) Add 1)", f"(1 Add (({size} Sub 1) Div {chunk}))", f"div_ceil({size}, {chunk})", f"((({size} Add {chunk}) Sub 1) Div {chunk})"]
def chunks(ctx):
    R = "chunks"
    f = snd(ctx, "start")
    D = "$3.data"
    ev = place_events(f, "self.%")
    base = "SnapshotSenderState{logger=%, snapshot_id=self.next_snapshot_id, snapshot_metadata=$3.metadata, snapshot_data=$3.data, chunk_size=self.config.chunk_size, chunk_count=%s, next_chunk_index=0, sent_chunk_count=0, pending_chunks=new(), status=None}"
    st = lambda c: base.replace("%s", c)
    LEN = f"len({D})"
    table(ctx, R, f, [e for e in ev if e.target != "self.next_snapshot_id"], [
        Row("transfer of data", ["$2", [st(c) for c in count_of(LEN, "self.config.chunk_size")]], kind=("grow", "write"), target=RC, never=[("the snapshot has no data", [T(f"is_empty({D})", True), REL(LEN, "=", "0")])]),
        Row("transfer without data", ["$2", st("1")], kind=("grow", "write"), target=RC, never=[("the snapshot has data", [T(f"is_empty({D})", False), REL(LEN, ">", "0")])])], "start of a transfer")
    r = live_from(f, None, [V("$3.metadata", "ok")], avoid={e.p for e in ev if e.target == RC})
    ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, "a requested transfer is not started", key=f"{R}:start")
    for e in ev:
        if e.target == RC:
            ctx.check(e.n.kind != "call" or not e.n.d["cal"].m.startswith("or_"), R, f.where(e.n), "an earlier transfer is kept instead", key=f"{R}:start-kept")
    w = counter(ctx, R, f, "self.next_snapshot_id", "the snapshot id")
    r = live_from(f, None, [V("$3.metadata", "ok")], avoid={e.p for e in w})
    ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, "two transfers get the same snapshot id", key=f"{R}:snapshot-id")

    f = snd(ctx, "next_request")
    K = RC + "[*].0"
    X = [f"{RC}[{K}]", RC + "[*].1"]
    x = lambda *p: [a.replace("@", s) for s in X for a in p]
    IDX = x("@.next_chunk_index")
    ev = place_events(f, "self.%")
    full = REL(["%pending_chunks%", "0", "rec", "sum(%self.receivers%)"], "=>", "self.config.max_pending_chunks")
    fin = V(x("@.status"), "ok")
    none = [("the limit of chunks in flight is reached", [full])]
    done = none + [("the transfer is over", [fin])]
    pend = [e for e in ev if m(x("@.pending_chunks"), e.target)]
    idx = [e for e in ev if m(IDX, e.target)]
    dlv = [e for e in ev if e.target == "self.next_delivery_id"]
    DID = "self.next_delivery_id" if any(cv(e.args[0]) == "self.next_delivery_id" for e in pend if e.args) else "(self.next_delivery_id Sub 1)"
    table(ctx, R, f, pend, [Row("chunk in flight", [DID, IDX], kind=("grow", "write"), never=done)], "bookkeeping")
    table(ctx, R, f, idx, [Row("next chunk", [[f"(1 Add {i})" for i in IDX]], kind="write", never=done)], "bookkeeping")
    counter(ctx, R, f, "self.next_delivery_id", "the delivery id")
    for e in ev:
        ctx.check(e in pend or e in idx or e in dlv, R, f.where(e.n), f"taking a request has another effect: {e.text()[:200]}", key=f"{R}:request:effect")
    # payload: what is decided before the counter moves
    wr = f.reach([e.p for e in idx], skip_start=True)
    for i in IDX:
        for n, op, o in place_reads(f, i):
            ctx.check(not [p for p in f.bynode[n.id] if p in wr], R, f.where(n), "the chunk index is used after it was advanced", key=f"{R}:stale-index")
    data = "@.snapshot_data"
    start = "(@.chunk_size Mul @.next_chunk_index)"
    ends_ = [f"({start} Add @.chunk_size)", f"(@.chunk_size Add {start})"]
    sl = [f"Bytes::slice({data}, Range{{start={start}, end={mn}}})" for e in ends_ for mn in (f"min(len({data}), {e})", f"min({e}, len({data}))", f"{{len({data}) | {e}}}", f"{{{e} | len({data})}}", e, f"len({data})")]
    head = [f"SnapshotContent{{snapshot_id=@.snapshot_id, it=It::Header{{0=Header{{snapshot_size=len({data}), snapshot_metadata=Message::encode_to_vec(@.snapshot_metadata), chunk_contents={s}}}}}}}" for s in sl]
    chk = [f"SnapshotContent{{snapshot_id=@.snapshot_id, it=It::Chunk{{0=Chunk{{chunk_index=@.next_chunk_index, chunk_contents={s}}}}}}}" for s in sl]
    req = lambda c: f"DeliverSnapshotRequest{{recipient_replica_id={K}, sender_replica_id=self.replica_id, delivery_id={DID}, %payload=Payload{{contents=Message::encode_to_vec({c})%}}%}}"
    rets = {}
    for p, t in ret_values(f):
        for y in alts(t):
            rets.setdefault(cv(y), []).append(p)
    first, later = [REL(i, "=", "0") for i in [IDX]], [REL(IDX, "<>", "0")]
    hs, cs = [s for s in rets if m(x(*[req(h) for h in head]), s)], [s for s in rets if m(x(*[req(c) for c in chk]), s)]
    ctx.check(bool(hs), R, f.entry_body.name, f"no request starts a transfer with size, metadata and first chunk: {[s[:600] for s in rets]}", key=f"{R}:header")
    ctx.check(bool(cs), R, f.entry_body.name, f"no request carries the chunk at its index: {[s[:600] for s in rets]}", key=f"{R}:chunk")
    for s in rets:
        ctx.check(s in hs or s in cs or s == "None", R, f.entry_body.name, f"a request is {s[:700]}", key=f"{R}:request")
    for e in call_events(f, "Bytes::slice"):
        for t in alts(e.args[-1]):
            en = cv(dict(t[3]).get("end")) if t[0] == "agg" and "end" in dict(t[3]) else ""
            E_, L_ = x(*ends_), x(f"len({data})")
            for mine, rel in ((E_, ">"), (L_, "<")):
                if m(mine, en):
                    ctx.check(e.p not in live_from(f, None, [REL(E_, rel, L_)]), R, f.where(e.n), "the chunk is cut at the wrong end", key=f"{R}:cut")
    enc = call_events(f, "Message::encode_to_vec")
    encs = [e for e in enc if cv(e.args[0]).startswith("SnapshotContent")]
    ctx.need(encs, "encoding of the content")
    for e in encs:
        isf = "It::Header" in cv(e.args[0])
        ctx.check(e.p not in live_from(f, None, later if isf else first), R, f.where(e.n), f"{'a header is sent again' if isf else 'the first chunk has no header'}", key=f"{R}:kind")
    ep, pp, ip = [e.p for e in encs], [e.p for e in pend], [e.p for e in idx]
    ok = [p for s in hs + cs for p in rets[s]]
    for nm, ps in (("registered as in flight", pp), ("counted", ip), ("a delivery id of its own", [e.p for e in dlv])):
        r = live_from(f, None, avoid=set(ps))
        ctx.check(not [p for p in ok if p in r and p not in set(rets.get("None", []))], R, f.entry_body.name, f"a chunk is sent without being {nm}", key=f"{R}:sent:{nm}")
    both(ctx, R, f, pp, ep, "registering a chunk and sending it")
    both(ctx, R, f, ip, ep, "advancing to the next chunk and sending one")
    # chunks in flight of all transfers count
    add = sum_states(f, RC + "%", "%pending_chunks%")
    okk, why = foreach_states(f, add, RC) if add else (False, "the chunks in flight are not added up")
    ctx.check(okk, R, f.entry_body.name, f"not all chunks in flight count: {why}", key=f"{R}:limit")
    # a transfer that has chunks left is chosen
    for e in pend:
        pr = [f"((len({RC}[*].1.pending_chunks) Add {RC}[*].1.sent_chunk_count) Div {RC}[*].1.chunk_count)", f"(({RC}[*].1.sent_chunk_count Add len({RC}[*].1.pending_chunks)) Div {RC}[*].1.chunk_count)"]
        off = e.p in live_from(f, None, [REL(pr, "=>", ["1f64"] + pr), REL("1f64", "=", "1f64")] + [V(RC + "[*].1.status", "no")])
        ctx.check(not off, R, f.where(e.n), "a chunk is sent for a transfer without chunks left", key=f"{R}:chosen")
    off = [p for p in pp if p in live_from(f, None, [V(f"next({RC})", "no")])]
    ctx.check(not off, R, f.entry_body.name, "a chunk is sent without a transfer", key=f"{R}:nothing")

def sum_states(f, place, part):
    """States in which a part of an element is added to a running sum."""
    out = []
    for n in f.nodes:
        if n.kind == "item" and n.id in f.reached and f.nodes[n.d["for"]].d["cal"].m == "sum":
            out += [p for p in f.bynode[n.id] if m(part, cv(f.desc(n.d["desc"], f.env_of(p)))) and m("%" + place, "%" + cv(f.desc(n.d["desc"], f.env_of(p))))]
        if n.kind == "assign" and n.id in f.reached and n.d["rv"][0] == "bin" and n.d["rv"][1].startswith("Add"):
            for p in f.bynode[n.id]:
                env = f.env_of(p)
                a, b = (cv(f.desc(("op", n.inst, o), env)) for o in n.d["rv"][2:4])
                if any(m(part, s) and m("len(%)", s) and m("%" + place, "%" + s) for s in (a, b)) and any(o in ("0", "rec") or o.startswith("{") or " Add rec" in o for o in (a, b)):
                    out.append(p)
    return out

def acks(ctx):
    R = "acks"
    f = snd(ctx, "process_response")
    S = f"{RC}[$2]"
    A = "Message::decode($4.payload.contents)"
    known = [V(f"get({RC}, $2)", "ok")]
    ans = known + [V("$4", "ok"), V("$4.payload", "ok")]
    dec_ = ans + [V(A, "ok")]
    mine = dec_ + [REL(A + ".snapshot_id", "=", S + ".snapshot_id")]
    REM = f"remove_entry({S}.pending_chunks, $3)"
    REM1 = f"remove({S}.pending_chunks, $3)"
    inb = [REL(A + ".chunk_index", "<", S + ".chunk_count")]
    right = [REL([f"($3, {A}.chunk_index)", f"{A}.chunk_index"], "=", [REM, REM1, f"{S}.pending_chunks[$3]"]), V([REM, REM1, f"get({S}.pending_chunks, $3)"], "ok")]
    wrong = [REL([f"($3, {A}.chunk_index)", f"{A}.chunk_index"], "<>", [REM, REM1, f"{S}.pending_chunks[$3]"])]
    acc = [V(A + ".status", "SnapshotStatusAccepted", adt="DeliverSnapshotStatus", prog=ctx.prog)]
    others = [v[0] for v in ctx.prog.adt("DeliverSnapshotStatus")["variants"] if v[0] != "SnapshotStatusAccepted"]
    rej = [V(A + ".status", *others, adt="DeliverSnapshotStatus", prog=ctx.prog)]
    ctx.check(tested(f, acc[0]), R, f.entry_body.name, "the status of the answer is not looked at", key=f"{R}:status")
    bad = [("delivery failed", known + [V("$4", "no")]), ("answer cannot be decoded", ans + [V(A, "no")]), ("chunk out of bounds", mine + [REL(A + ".chunk_index", ">=", S + ".chunk_count")]),
           ("chunk does not belong to the delivery", mine + inb + wrong), ("delivery is not in flight", mine + inb + [V([REM, REM1, f"get({S}.pending_chunks, $3)"], "no")] + wrong), ("chunk is rejected", mine + inb + right + rej)]
    stray = [("the answer is for another transfer", dec_ + [REL(A + ".snapshot_id", "<>", S + ".snapshot_id")]), ("no transfer to the peer", [V(f"get({RC}, $2)", "no")])]
    good = mine + inb + right + acc
    ev = place_events(f, "self.%")
    for e in ev:
        ctx.check(m(S + ".%", e.target), R, f.where(e.n), f"an answer has another effect: {e.text()[:200]}", key=f"{R}:effect")
    table(ctx, R, f, [e for e in ev if not e.target.endswith(".pending_chunks")], [
        Row("acknowledged", [f"(1 Add {S}.sent_chunk_count)"], kind="write", target=S + ".sent_chunk_count", never=bad + stray, always=[("the chunk is accepted", good)]),
        Row("failed", ["SnapshotStatus::Failure"], kind="write", target=S + ".status", never=stray + [("the chunk is accepted", good)], always=bad)], "outcome")
    once(ctx, R, f, [e for e in ev if e.target == S + ".sent_chunk_count"], "acknowledging a chunk")
    pc = [e for e in ev if e.target.endswith(".pending_chunks")]
    table(ctx, R, f, pc, [Row("no longer in flight", ["$3"], kind="shrink", target=S + ".pending_chunks", always=[("the chunk is accepted", good)])], "in flight")

    f = snd(ctx, "try_complete")
    T_ = RC + "[*].1"
    alld, left = [REL(T_ + ".chunk_count", "=", T_ + ".sent_chunk_count")], [REL(T_ + ".chunk_count", "<>", T_ + ".sent_chunk_count")]
    open_ = [V(T_ + ".status", "no")]
    ev = place_events(f, "self.%")
    table(ctx, R, f, ev, [
        Row("finished", ["SnapshotStatus::Finish"], kind="write", target=T_ + ".status", never=[("chunks are left", left), ("the transfer has failed", [V(T_ + ".status", "ok")])]),
        Row("data dropped", None, kind="write", target=T_ + ".snapshot_data", never=[("chunks are left", left)], min=0),
        Row("removed", [RC + "[*].0"], kind="shrink", target=RC)], "completion")
    it = lambda a: iteration(f, RC, a)
    fin = [e.p for e in ev if e.target == T_ + ".status"]
    r = set()
    okk, why = foreach_reach(f, RC, fin, open_ + alld)
    ctx.check(okk, R, f.entry_body.name, f"a transfer whose chunks are all acknowledged does not finish: {why}", key=f"{R}:finish")
    rm = [e.p for e in ev if e.target == RC]
    rets = {}
    for p, t in ret_values(f):
        for y in alts(t):
            rets.setdefault(cv(y), []).append(p)
    pair = [f"({RC}[*].0, {v})" for v in (T_ + ".status", "SnapshotStatus::Finish", f"{{SnapshotStatus::Finish | {T_}.status}}")]
    for s in rets:
        ctx.check(s == "None" or m(pair, s), R, f.entry_body.name, f"the reported transfer is {s[:300]}", key=f"{R}:report")
    ctx.check(any(m(pair, s) for s in rets), R, f.entry_body.name, "no completed transfer is ever reported", key=f"{R}:report")
    okp = {p for s in rets if s != "None" for p in rets[s]}
    nop = {p for p in rets.get("None", [])}
    off = [p for p in okp - nop if p in live_from(f, None, avoid=set(rm))]
    ctx.check(not off, R, f.entry_body.name, "a completed transfer is reported but kept", key=f"{R}:kept")
    off = [p for p in nop - okp if p in f.reach(rm, skip_start=True)]
    ctx.check(not off, R, f.entry_body.name, "a transfer is dropped without a report", key=f"{R}:dropped")
    # only transfers that are over are reported; a failed one always
    over = [V(T_ + ".status", "no")] + left
    hd = loops(f, RC)
    for h in hd:
        ok, no = loop_edges(f, h, RC)
        r = live_from(f, [t for _, t in ok], over, avoid=set(f.bynode[h.id]))
        ctx.check(not [p for p in rm if p in r] and not [p for p in f.ends() if p in r], R, f.where(h), "a transfer that goes on is reported", key=f"{R}:early")
        for nm, a in (("failed", [V(T_ + ".status", "ok")]),):
            r = live_from(f, [t for _, t in ok], a, avoid=set(rm))
            ctx.check(not [p for p in f.ends() if p in r], R, f.where(h), f"a {nm} transfer is passed over", key=f"{R}:over")
    ctx.need(hd, "loop over the transfers")

    f = snd(ctx, "reset", "SnapshotSenderImpl")
    ctx.need(ret_values(f), "result of the reset")
    for p, t in ret_values(f):
        elems(ctx, R, f, f.nodes[f.pnodes[p][0]], t, f"({RC}[*].0, SnapshotStatus::Failure)", "cancelled transfers", source=[RC, RC + "[*].0"])
    table(ctx, R, f, place_events(f, "self.%"), [Row("transfers dropped", None, kind=("shrink", "write"), target=RC, always=[("reset", [])])], "reset")
    for e in place_events(f, RC):
        ctx.check(e.kind == "shrink" and e.n.d["cal"].m in ("clear", "drain", "take") or e.kind == "write" and cv(e.args[-1]) == "new()", R, f.where(e.n), "some transfers survive the reset", key=f"{R}:cleared")
        # the list is complete before
        hp = [q for h in loops(f, [RC, RC + "[*].0"]) for q in f.bynode[h.id]]
        r = f.reach([e.p], skip_start=True)
        ctx.check(e.n.kind == "call" and e.n.d["cal"].m in ("drain", "take") or not [q for q in hp if q in r], R, f.where(e.n), "the transfers are dropped before they are reported", key=f"{R}:reset-order")

    f = snd(ctx, "process_unexpected_request")
    quiet(ctx, R, f, "an unexpected request", [])
    REJ = "DeliverSnapshotStatus::SnapshotStatusRejected"
    for p, t in ret_values(f):
        for y in alts(t):
            s = cv(y)
            ctx.check(m(f"DeliverSnapshotResponse{{recipient_replica_id=$2.sender_replica_id, sender_replica_id=$2.recipient_replica_id, delivery_id=$2.delivery_id, %payload=Payload{{contents=Message::encode_to_vec(SnapshotAck{{%status={REJ}%}})%", s), R, f.entry_body.name, f"the answer to an unexpected request is {s[:400]}", key=f"{R}:unexpected")
            ctx.check("SnapshotStatusAccepted" not in s, R, f.entry_body.name, "an unexpected request is accepted", key=f"{R}:unexpected")

def foreach_reach(f, pat, states, ass):
    """Each element under the assumptions that is visited reaches one of the states."""
    st = set(states)
    why = "no loop"
    for h in loops(f, pat):
        ok, no = loop_edges(f, h, pat)
        r = live_from(f, [t for _, t in ok], ass, avoid=st)
        off = [p for p in f.bynode[h.id] if p in r] + [p for p in f.ends() if p in r]
        if not off:
            return True, ""
        why = "skipped in the loop at " + f.where(h)
    return False, why

RCV = "DefaultSnapshotReceiver"
REQ = "Message::decode($2.payload.contents)"
def receive(ctx):
    R = "receive"
    f = ctx.api(RCV, "SnapshotReceiver", "process_request")
    H, C = REQ + ".it.Header.0", REQ + ".it.Chunk.0"
    ACC, REJ = "DeliverSnapshotStatus::SnapshotStatusAccepted", "DeliverSnapshotStatus::SnapshotStatusRejected"
    resp = lambda ack: f"DeliverSnapshotResponse{{recipient_replica_id=$2.sender_replica_id, sender_replica_id=$2.recipient_replica_id, delivery_id=$2.delivery_id, %payload=Payload{{contents=Message::encode_to_vec({ack})%}}}}"
    ack = lambda sid, ix, st: resp(f"SnapshotAck{{snapshot_id={sid}, chunk_index={ix}, status={st}}}")
    pl = [V("$2.payload", "ok")]
    isd = pl + [V(REQ, "ok"), V(REQ + ".it", "ok")]
    hd, ch = isd + [V(REQ + ".it?", "Header")], isd + [V(REQ + ".it?", "Chunk")]
    HS, HC = H + ".snapshot_size", f"len({H}.chunk_contents)"
    E0 = f"is_empty({H}.chunk_contents)"
    fits = [("first of several chunks", [REL(HC, "<", HS), T(E0, False), REL(HC, ">", "0"), REL(HS, ">", "0")]), ("single chunk", [REL(HC, "=", HS), T(E0, False), REL(HC, ">", "0"), REL(HS, ">", "0")]), ("empty snapshot", [REL(HC, "=", HS), T(E0, True), REL(HC, "=", "0"), REL(HS, "=", "0")])]
    misfits = [("first chunk longer than the snapshot", [REL(HC, ">", HS), T(E0, False), REL(HC, ">", "0")]), ("empty first chunk of a snapshot with data", [T(E0, True), REL(HC, "=", "0"), REL(HS, ">", "0"), REL(HC, "<", HS)])]
    S = "self.state"
    some = [V(S, "ok")]
    IX, LEN = C + ".chunk_index", f"len({C}.chunk_contents)"
    LAST = [f"({S}.chunk_count Sub 1)"]
    REST = [f"({S}.snapshot_size Sub ({a} Mul {b}))" for a, b in ((LAST[0], S + ".chunk_size"), (S + ".chunk_size", LAST[0]))]
    own = ch + some + [REL("$2.sender_replica_id", "=", S + ".sender_id"), REL(REQ + ".snapshot_id", "=", S + ".snapshot_id")]
    mid = own + [REL(IX, "<", S + ".chunk_count"), REL(IX, "<", LAST)]
    end = own + [REL(IX, "<", S + ".chunk_count"), REL(IX, "=", LAST)]
    good = [("chunk in the middle", mid + [REL(LEN, "=", S + ".chunk_size")]), ("last chunk", end + [REL(LEN, "=", REST)])]
    bad = [("no transfer has been started", ch + [V(S, "no")]), ("chunk of another sender", ch + some + [REL("$2.sender_replica_id", "<>", S + ".sender_id")]),
           ("chunk of another snapshot", ch + some + [REL(REQ + ".snapshot_id", "<>", S + ".snapshot_id")]),
           ("chunk beyond the end", own + [REL(IX, ">=", S + ".chunk_count"), REL(IX, ">", LAST)]),
           ("chunk of the wrong size", mid + [REL(LEN, "<>", S + ".chunk_size")]), ("last chunk of the wrong size", end + [REL(LEN, "<>", REST)])]
    undec = [("request cannot be decoded", pl + [V(REQ, "no")])]
    for nm, a in fits:
        outcomes(ctx, R, f, "header, " + nm, hd + a, ack(REQ + ".snapshot_id", "0", ACC))
    for nm, a in misfits:
        outcomes(ctx, R, f, "header, " + nm, hd + a, ack(REQ + ".snapshot_id", "0", REJ))
        quiet(ctx, R, f, "header, " + nm, hd + a)
    for nm, a in good:
        outcomes(ctx, R, f, nm, a, ack(REQ + ".snapshot_id", IX, ACC))
    for nm, a in bad:
        outcomes(ctx, R, f, nm, a, ack(REQ + ".snapshot_id", IX, REJ))
        quiet(ctx, R, f, nm, a)
    for nm, a in undec:
        outcomes(ctx, R, f, nm, a, ack("%", "%", REJ))
        quiet(ctx, R, f, nm, a)
    empty = pl + [V(REQ, "ok"), V(REQ + ".it", "no")]
    quiet(ctx, R, f, "request without content", empty)
    for p, t in ret_values(f):
        if p in live_from(f, None, empty):
            for y in alts(t):
                ctx.check(ACC not in cv(y), R, f.entry_body.name, "a request without content is accepted", key=f"{R}:empty")
    # effects
    ev = place_events(f, "self.%")
    first = ["new()", f"%"]
    st = lambda c: f"ReceiverState{{logger=%, sender_id=$2.sender_replica_id, snapshot_id={REQ}.snapshot_id, snapshot_size={HS}, snapshot_metadata={H}.snapshot_metadata, chunk_size={HC}, chunk_count={c}, chunks=new()}}"
    table(ctx, R, f, ev, [
        Row("reset", ["None"], kind="write", target=S, never=bad + undec + good, min=0),
        Row("reset (taken)", [], kind="shrink", target=S, never=bad + undec + good, min=0) if any(e.kind == "shrink" and e.target == S for e in ev) else Row("none", ["%"], target="?", min=0),
        Row("transfer", [[st(c) for c in count_of(HS, HC)]], kind=("write", "grow"), target=S, never=bad + undec + good + [("the snapshot is empty", fits[2][1])], always=[("header, " + n, hd + a) for n, a in fits[:2]]),
        Row("transfer of an empty snapshot", [st("1")], kind=("write", "grow"), target=S, never=bad + undec + good, always=[("header, " + n, hd + a) for n, a in fits[2:]]),
        Row("chunk", [IX, C + ".chunk_contents"], kind=("grow", "write"), target=S + ".chunks", always=good)], "state")
    # the first chunk is kept
    firsts = [e for e in place_events(f, "%", ("grow",)) if e.target == "new()" and len(e.args) == 2]
    fc = [e for e in firsts if cv(e.args[0]) == "0" and cv(e.args[1]) == H + ".chunk_contents"]
    for nm, a in fits:
        r = live_from(f, None, hd + a, avoid={e.p for e in fc})
        ctx.check(bool(fc) and not [p for p in f.ends() if p in r], R, f.entry_body.name, f"header, {nm}: the first chunk is lost", key=f"{R}:first")
    for e in firsts:
        ctx.check(e in fc, R, f.where(e.n), f"the transfer starts with {e.text()[:200]}", key=f"{R}:first-chunk")
    # nothing undoes the new transfer
    wr = [e.p for e in ev if e.target == S and e.kind != "shrink" and cv(e.args[-1]) != "None"]
    r = f.reach(wr, skip_start=True)
    off = [e for e in ev if e.target == S and (e.kind == "shrink" or cv(e.args[-1]) == "None") and e.p in r]
    ctx.check(not off, R, f.where(off[0].n) if off else "", "a transfer is dropped right after it was started", key=f"{R}:undone")

def assemble(ctx):
    R = "assemble"
    f = ctx.api(RCV, "SnapshotReceiver", "try_complete")
    S = "self.state"
    N = f"len({S}.chunks)"
    META = f"Message::decode({S}.snapshot_metadata)"
    some = [V(S, "ok")]
    part = [("nothing is received", [V(S, "no")]), ("chunks are missing", some + [REL(N, "<>", S + ".chunk_count")])]
    alls = some + [REL(N, "=", S + ".chunk_count")]
    for nm, a in part:
        outcomes(ctx, R, f, nm, a, "None")
        quiet(ctx, R, f, nm, a)
    outcomes(ctx, R, f, "metadata cannot be decoded", alls + [V(META, "no")], "Err{0=SnapshotError::Corrupted}")
    oka = alls + [V(META, "ok"), V(S + ".snapshot_size", "ok")]
    snap = [f"Snapshot{{data={b}, metadata={META}}}" for b in ("BytesMut::with_capacity(%)", "BytesMut::new()", "new()", "%collect(%", "concat(%")] + [f"Snapshot{{metadata={META}, data=%}}"]
    outcomes(ctx, R, f, "complete", oka, [f"({S}.sender_id, {s})" for s in snap])
    rng = f"Range{{start=0, end={S}.chunk_count}}"
    piece = [f"{op}({S}.chunks, {rng}[*])" for op in ("remove", "get")] + [f"{S}.chunks[{rng}[*]]"]
    ev = place_events(f, "self.%")
    for e in ev:
        if e.target == S + ".chunks":
            ctx.check(e.kind == "shrink" and e.args and m([rng + "[*]"], cv(e.args[0])), R, f.where(e.n), f"chunks are taken in another order: {e.text()[:200]}", key=f"{R}:order")
        else:
            ctx.check(e.target == S and (e.kind == "shrink" or cv(e.args[-1]) == "None"), R, f.where(e.n), f"completion has another effect: {e.text()[:200]}", key=f"{R}:effect")
    wr = [e.p for e in ev if e.target == S]
    for nm, a in (("the snapshot is complete", oka), ("the snapshot is corrupted", alls + [V(META, "no")])):
        r = live_from(f, None, a, avoid=set(wr))
        ctx.check(not [p for p in f.ends() if p in r], R, f.entry_body.name, f"the transfer is kept although {nm}", key=f"{R}:kept")
    puts = [e for e in call_events(f, ["put", "extend_from_slice", "put_slice", "extend"]) if len(e.args) == 2]
    ctx.need(puts, "assembly of the data")
    for e in puts:
        ctx.check(m(piece, cv(e.args[1])), R, f.where(e.n), f"{cv(e.args[1])[:200]} is put into the snapshot", key=f"{R}:piece")
    okk, why = foreach_states(f, [e.p for e in puts], rng)
    ctx.check(okk, R, f.entry_body.name, f"not every chunk is put into the snapshot: {why}", key=f"{R}:pieces")
    once_in(ctx, R, f, [e.p for e in puts], rng)
    for n in f.calls(m={"rev", "reverse", "sort", "sort_by", "sort_unstable", "swap", "next_back"}):
        ctx.bad(R, f.where(n), "chunks are assembled in another order", key=f"{R}:reorder")
    g = ctx.api(RCV, "SnapshotReceiverImpl", "reset")
    table(ctx, R, g, place_events(g, "self.%"), [Row("transfer dropped", ["None"], kind="write", target=S, always=[("reset", [])])], "reset")
def once_in(ctx, R, f, ps, pat):
    for h in loops(f, pat):
        r = f.reach(ps, avoid=set(f.bynode[h.id]), skip_start=True)
        ctx.check(not [p for p in ps if p in r], R, f.where(h), "a chunk is put into the snapshot twice", key=f"{R}:twice")
