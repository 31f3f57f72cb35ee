"""Replicated actors: command gate, determinism of the application of events,
snapshots; atomic counter and decryptor."""
from rlib import *
from rules_coord import once

NOTHING = ("nothing",)
def outs(f):
    """Outcomes per final state: [(state, "err"|"ok", event term or None, [(state, command)])]."""
    r = f.__dict__.get("_outs")
    if r is not None:
        return r
    r = f._outs = []
    items = {}
    for p, t in ret_values(f):
        for x in alts(t):
            while x[0] == "agg" and x[2] in ("Ok",) and len(x[3]) == 1:
                x = x[3][0][1]
            if x[0] == "agg" and x[2] == "Err" or x[0] == "err":
                r.append((p, "err", None, []))
                continue
            if x[0] == "call" and x[1].startswith("default:") and x[1].endswith("Outcome"):
                r.append((p, "ok", None, []))
                continue
            d = dict(x[3]) if x[0] == "agg" else {}
            if "commands" not in d:
                r.append((p, "?" + cv(x)[:120], None, []))
                continue
            ev = d.get("event", ("agg", "Option", "None", ()))
            cm = []
            for y in alts(d["commands"]):
                if y not in items:
                    items[y] = [(q, v, f.reach([q])) for q, v in item_states(f, y)]
                    if not items[y] and not is_local_coll(y) and not is_vec_literal(y):
                        items[y] = [(None, y, None)]
                cm += [(q, v) for q, v, re_ in items[y] if re_ is None or p in re_]
            for e in alts(ev):
                none = (e[0] == "agg" and e[2] == "None") or e == ("k", "None")
                if e[0] == "agg" and e[2] == "Some":
                    e = e[3][0][1]
                r.append((p, "ok", None if none else e, cm))
    return r

def scenario(ctx, R, f, name, assume, kind="ok", event=None, cmds=(), changes=True, context=()):
    """Under the assumptions every completed call has this outcome."""
    rr = live_from(f, None, assume)
    reached = [o for o in outs(f) if o[0] in rr]
    if not ctx.check(bool(reached), R, f.entry_body.name, f"{name}: no outcome is possible", key=f"{R}:{name}:none"):
        return
    for p, k, e, cm in reached:
        if not ctx.check(k == kind, R, showp(f, p), f"{name}: the outcome is {k} instead of {kind}", key=f"{R}:{name}:kind", path=None):
            continue
        if kind == "err":
            continue
        s = cv(e) if e is not None else None
        ctx.check((s is None) == (event is None) and (event is None or m(event, s)), R, showp(f, p), f"{name}: the replicated event is {str(s)[:300]}", key=f"{R}:{name}:event")
        its = [(q, v) for q, v in cm if q is None or q in rr]
        for q, v in its:
            ctx.check(any(m(c, cv(v)) for c in cmds), R, showp(f, q if q is not None else p), f"{name}: the command sent is {cv(v)[:400]}", key=f"{R}:{name}:command")
        for c in cmds:
            qs = {q for q, v in its if m(c, cv(v))}
            if ctx.check(bool(qs), R, showp(f, p), f"{name}: there is no command like {c if isinstance(c, str) else c[0]}", key=f"{R}:{name}:no-command"):
                off = p in live_from(f, None, assume, avoid=qs)
                ctx.check(not off, R, showp(f, p), f"{name}: the command is not always sent", key=f"{R}:{name}:sometimes")
                lit = [q for q in qs if sum(1 for a, v in its if a == q) > len({cv(v) for a, v in its if a == q})]
                two = [q for q in qs if q is not None and qs & (f.reach([q], avoid_edge=cut(assume), skip_start=True))]
                ctx.check(not two and not lit, R, showp(f, (two or lit or [p])[0]), f"{name}: the command is sent twice", key=f"{R}:{name}:twice")
    if not changes:
        off = [e for e in state_events(f) if e.p in rr]
        ctx.check(not off, R, f.where(off[0].n) if off else "", f"{name}: the state changes: {off[0].text()[:200] if off else ''}", key=f"{R}:{name}:changes")

def state_events(f):
    return [e for e in place_events(f, "self.%") if not e.target.startswith("self.context")]

def unchanged(ctx, R, f, what):
    ev = state_events(f)
    ctx.check(not ev, R, f.where(ev[0].n) if ev else f.entry_body.name, f"{what} changes the replicated state: {ev[0].text()[:200] if ev else ''}", key=f"{R}:changed-outside-events")

LOCAL = ["ActorContext::leader(%", "ActorContext::id(%", "ActorContext::instant(%", "%OsRng%", "%random%", "%thread_rng%", "%now()%", "ActorContext::config_leader%"]
def local_source(t):
    for x in subterms(t):
        if x[0] in ("call", "static", "fn", "k") and any(m(q, cv(x)) for q in LOCAL):
            return cv(x)
        if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("next_u32", "next_u64", "fill_bytes", "gen", "gen_range", "try_fill_bytes", "random", "new_with_randomly_generated_seed", "generate_seed"):
            return cv(x)
    return None
def replica_independent(ctx, R, f, what, owned="$2.owned", maps=()):
    """The state after the call is a function of the state before and of the event."""
    evs = state_events(f)
    for e in evs:
        for a in e.args:
            for x in (local_source(a),):
                ctx.check(x is None, R, f.where(e.n), f"{what}: the state depends on the replica: {x}", key=f"{R}:{what}:source")
            if owned:
                o = [y for y in subterms(a) if y[0] == "fld" and cv(y) == owned]
                ctx.check(not o, R, f.where(e.n), f"{what}: the state depends on the owner of the event", key=f"{R}:{what}:owned-value")
            for mp in maps:
                o = [y for y in subterms(a) if y[0] == "call" and y[1].split("::")[-1] in ("min_by_key", "max_by_key", "min_by", "max_by", "find", "last", "nth", "next", "position", "fold", "find_map", "reduce") and y[2] and cv(y[2][0]).startswith(mp)]
                ctx.check(not o, R, f.where(e.n), f"{what}: the state depends on the iteration order of a hash map", key=f"{R}:{what}:order")
    # branches
    for p, o in enumerate(f.psucc):
        for t, fs in o or []:
            for k, v in fs:
                x = next((y for y in (local_source(z) for z in k[1:] if isinstance(z, tuple)) if y), None)
                if x:
                    r = f.reach([t])
                    off = [e for e in evs if e.p in r]
                    ctx.check(not off, R, showp(f, p), f"{what}: whether the state changes depends on the replica: {x}", key=f"{R}:{what}:branch")
    if owned:
        side = {True: set(), False: set()}
        ctrl = {True: {}, False: {}}
        txt = {}
        for val in (True, False):
            st = [t for p, o in enumerate(f.psucc) for t, fs in o or [] if any(k[0] == "true" and ck(k[1]) == owned and v == val for k, v in fs)]
            r = live_from(f, st, [T(owned, val)]) if st else set()
            for e in evs:
                if e.p in r:
                    side[val].add(e.text())
                    txt[e.text()] = e
            # conditions that decide whether anything happens
            for p in r:
                o = [(t, fs) for t, fs in f.psucc[p] or [] if t in r]
                if len(o) > 1:
                    k = [frozenset(e.text() for e in evs if e.p in live_from(f, [t], [T(owned, val)])) for t, _ in o]
                    if len(set(k)) > 1:
                        for t, fs in o:
                            for g, v in fs:
                                if not (g[0] == "true" and ck(g[1]) == owned):
                                    ctrl[val].setdefault((g[0],) + tuple(ck(y) if isinstance(y, tuple) else str(y) for y in g[1:]), p)
        d = set(ctrl[True]) ^ set(ctrl[False])
        for g in sorted(d, key=str)[:1]:
            q = ctrl[True].get(g, ctrl[False].get(g))
            ctx.check(False, R, showp(f, q), f"{what}: {' '.join(g)[:200]} decides whether the state changes only for some owner of the event", key=f"{R}:{what}:owned-condition")
        d = side[True] ^ side[False]
        e = txt[sorted(d)[0]] if d else None
        ctx.check(not d, R, f.where(e.n) if e else f.entry_body.name, f"{what}: the state changes depending on the owner of the event: {sorted(d)[0][:200] if d else ''}", key=f"{R}:{what}:owned-branch")
    ctx.ok(R, f"{what}: {len(evs)} state changes @ {f.entry_body.name}")

def closure_values(ctx, t):
    """Values a closure without arguments may return."""
    if t[0] == "cl" and t[1] in ctx.prog.bodies:
        f = ctx.flow(ctx.prog.bodies[t[1]])
        return {cv(v) for _, v in ret_values(f)}
    return {cv(t)}

# ---------------------------------------------------------------- counter
CA = "CounterActor"
IN = "Message::decode($2.header)"
def cnt(ctx, me):
    return ctx.api(CA, "Actor", me)
def cresp(cor, status, op="%"):
    return f"ActorCommand{{correlation_id={cor}, header=Message::encode_to_vec(AtomicCounterOutMessage{{msg=Msg::CounterResponse{{0=CounterResponse{{status=CounterStatus::{status}, op={op}}}}}}}), payload=Bytes::new()}}"
def counter_cas(ctx):
    R = "compare-and-swap"
    f = cnt(ctx, "on_apply_event")
    REQ = "Message::decode($3.contents)"
    CAS = REQ + ".op.CompareAndSwap.0"
    VAL = f"self.values[{REQ}.name]"
    good = [V(REQ, "ok"), V(REQ + ".op", "ok")]
    same = [REL(CAS + ".expected_value", "=", VAL + ".value")]
    diff = [REL(CAS + ".expected_value", "<>", VAL + ".value")]
    ctx.check(tested(f, same[0]), R, f.entry_body.name, "the current value of the counter is not compared with the expected value", key=f"{R}:compared")
    evs = state_events(f)
    table(ctx, R, f, [e for e in evs if not e.target == "self.values"], [
        Row("value", [CAS + ".new_value"], kind="write", target=VAL + ".value", never=[("the value is not the expected one", diff), ("the event cannot be decoded", [V(REQ, "no")])], always=[("the value is the expected one", good + same)]),
        Row("payload", [REQ + ".payload"], kind="write", target=VAL + ".payload", never=[("the value is not the expected one", diff), ("the event cannot be decoded", [V(REQ, "no")])], always=[("the value is the expected one", good + same)])], "counter")
    for e in evs:
        if e.target == "self.values":
            vs = closure_values(ctx, e.args[-1])
            ctx.check(e.kind == "grow" and cv(e.args[0]) == REQ + ".name" and all(m("CounterValue{value=0, payload=%}", v) for v in vs), R, f.where(e.n), f"a counter that does not exist starts as {sorted(vs)}: {e.text()[:200]}", key=f"{R}:initial")
    ok = cresp("$3.correlation_id", "Success", f"Op::CompareAndSwap{{0=CounterCompareAndSwapResponse{{old_value={VAL}.value, new_value={CAS}.new_value}}}}")
    # the old value is the compared one, not the one after the swap
    no = cresp("$3.correlation_id", "InvalidArgumentError", f"Op::CompareAndSwap{{0=CounterCompareAndSwapResponse{{old_value={VAL}.value, new_value={VAL}.value}}}}")
    own, oth = [T("$2.owned", True)], [T("$2.owned", False)]
    scenario(ctx, R, f, "undecodable event", [V(REQ, "no")], kind="err", changes=False)
    scenario(ctx, R, f, "swap by the owner", good + same + own, cmds=[ok])
    scenario(ctx, R, f, "mismatch at the owner", good + diff + own, cmds=[no])
    scenario(ctx, R, f, "event of another replica", good + oth)
    read_before(ctx, R, f, "CounterCompareAndSwapResponse", "old_value", [e.p for e in place_events(f, VAL + ".value", ("write",))], "the reported old value")
def mem_reads(f, inst, o, n, out, seen, calls=False):
    """Nodes that perform the read of memory a value comes from."""
    def place(inst, pl, n):
        if len(pl) > 1 and "*" in pl[1:]:
            out[n.id] = n
            return
        l = pl[0]
        if (inst.id, l) in seen:
            return
        seen.add((inst.id, l))
        for nid, d in inst.defs.get(l, []) + [(nid, d) for _, nid, d in inst.partial.get(l, [])]:
            q = f.nodes[nid]
            if d[0] == "ret":
                if d[1] is not None:
                    place(d[1], [0], q)
            elif d[0] == "rv" and d[2][0] in ("use", "cast"):
                origin(d[1], next((x for x in d[2][1:] if isinstance(x, list)), None), q)
            elif d[0] == "rv" and d[2][0] == "ref" and calls:
                place(d[1], d[2][2], q)
            elif d[0] == "op":
                origin(d[1], d[2], q)
            elif calls and q.kind == "call":
                out[q.id] = q
        if 1 <= l <= inst.body.argc and l - 1 < len(inst.args):
            d = inst.args[l - 1]
            if d and d[0] == "op":
                origin(d[1], d[2], n)
    def origin(inst, o, n):
        if o and o[0] in ("c", "m"):
            place(inst, o[1], n)
    origin(inst, o, n)
def field_reads(f, adt, field):
    """Nodes that perform the read of memory that ends up in a field."""
    out, seen = {}, set()
    for n in f.nodes:
        if n.kind != "assign" or n.id not in f.reached:
            continue
        rv, pl = n.d["rv"], n.d["place"]
        if rv[0] == "agg" and rv[1] == "adt" and short(rv[2]) == adt and field in rv[4]:
            mem_reads(f, n.inst, rv[5][rv[4].index(field)], n, out, seen)
        if len(pl) > 1 and pl[-1].startswith("." + field + "|") and short(pl[-1].split("|")[-1]) == adt and rv[0] == "use":
            mem_reads(f, n.inst, rv[1], n, out, seen)
    return list(out.values())
def capture_reads(f, cid):
    """The same for the values a closure captures."""
    out, seen = {}, set()
    for n in f.nodes:
        if n.kind == "assign" and n.id in f.reached and n.d["rv"][0] == "agg" and n.d["rv"][1] == "closure" and n.d["rv"][2] == cid:
            for o in n.d["rv"][5]:
                mem_reads(f, n.inst, o, n, out, seen, calls=True)
    return list(out.values())
def read_before(ctx, R, f, adt, field, writes, what):
    rs = field_reads(f, adt, field)
    ctx.need(rs, f"read of {field}")
    r = f.reach(writes, skip_start=True)
    for n in rs:
        off = [p for p in f.bynode[n.id] if p in r]
        ctx.check(not off, R, f.where(n), f"{what} is read after it was overwritten", key=f"{R}:stale:{field}")

def counter_gate(ctx):
    R = "command-gate"
    f = cnt(ctx, "on_process_command")
    L = "ActorContext::leader(self.context)"
    Q = IN + ".msg.CounterRequest.0"
    is_ = [V("$2", "ok")]
    lead, dec = [T(L, True)], [V(IN, "ok"), V(IN + ".msg", "ok")]
    bad = lambda s: cresp("$2.correlation_id", s)
    scenario(ctx, R, f, "no command", [V("$2", "no")])
    scenario(ctx, R, f, "undecodable command", is_ + [V(IN, "no")], cmds=[bad("InvalidOperationError")])
    scenario(ctx, R, f, "command without message", is_ + [V(IN, "ok"), V(IN + ".msg", "no")], cmds=[bad("InvalidOperationError")])
    scenario(ctx, R, f, "not the leader", is_ + dec + [T(L, False), V(Q + ".op", "ok")], cmds=[bad("Rejected")])
    scenario(ctx, R, f, "request without operation", is_ + dec + lead + [V(Q + ".op", "no")], cmds=[bad("InvalidOperationError")])
    scenario(ctx, R, f, "request", is_ + dec + lead + [V(Q + ".op", "ok")], event=f"ActorEvent{{correlation_id=$2.correlation_id, contents=Message::encode_to_vec({Q}+{{context=Bytes::new()}})}}")
    ctx.check(tested(f, T(L)) and tested(f, V(Q + ".op", "ok")), R, f.entry_body.name, "leadership or the operation is not checked", key=f"{R}:checked")
    unchanged(ctx, R, f, "processing a command")

def counter_snapshot(ctx):
    R = "snapshot"
    f = cnt(ctx, "on_save_snapshot")
    unchanged(ctx, R, f, "saving a snapshot")
    saved(ctx, R, f, "CounterSnapshot", "values", "self.values", "(self.values[*].0, CounterSnapshotValue{value=self.values[*].1.value, payload=self.values[*].1.payload})")
    f = cnt(ctx, "on_load_snapshot")
    S = "Message::decode($2)"
    loaded(ctx, R, f, S, "self.values", S + ".values", [S + ".values[*].0", f"CounterValue{{value={S}.values[*].1.value, payload={S}.values[*].1.payload}}"])
    f = cnt(ctx, "on_init")
    C = "Message::decode(ActorContext::config(self.context))"
    R = "init"
    loaded(ctx, R, f, C, "self.values", C + ".initial_values", [C + ".initial_values[*].0", f"CounterValue{{value={C}.initial_values[*].1, payload=Bytes::new()}}"])

def saved(ctx, R, f, adt, field, source, item):
    """The returned snapshot holds one item per element of the source."""
    n = 0
    for p, t in ret_values(f):
        for x in alts(t):
            while x[0] == "agg" and x[2] == "Ok":
                x = x[3][0][1]
            if not ctx.check(x[0] == "call" and x[1].endswith("encode_to_vec") and x[2] and x[2][0][0] in ("agg", "upd", "call", "cell"), R, showp(f, p), f"the snapshot returned is {cv(x)[:200]}", key=f"{R}:returned"):
                continue
            y = uncell_(x[2][0])
            d = dict(y[3]) if y[0] == "agg" else dict(y[2]) if y[0] == "upd" else {}
            if not ctx.check((y[0] != "agg" or short(y[1]) == adt) and field in d, R, showp(f, p), f"the snapshot returned is {cv(y)[:200]}", key=f"{R}:returned"):
                continue
            coll = d[field]
            n += 1
            its = [(q, v) for q, v in item_states(f, coll)]
            if not its and coll[0] in ("new",):
                pass
            its = its or [(e.p, ("agg", "tuple", "", tuple((str(i), a) for i, a in enumerate(e.args))) if len(e.args) > 1 else e.args[0]) for e in place_events(f, "%", ("grow",)) if e.args and snapshot_target(e, adt, field)]
            if not ctx.check(bool(its), R, showp(f, p), f"nothing is saved in {field}", key=f"{R}:saved"):
                continue
            for q, v in its:
                ctx.check(m(item, cv(v)), R, showp(f, q), f"saved item {cv(v)[:300]}", key=f"{R}:saved-item")
            okk, why = foreach_states(f, [q for q, _ in its], source)
            ctx.check(okk, R, showp(f, p), f"not everything is saved: {why}", key=f"{R}:saved-all")
            for c in alts(coll):
                sh = shrinks_before(f, c, f.nodes[f.pnodes[p][0]])
                ctx.check(not sh, R, f.where(sh[0]) if sh else "", "saved items are dropped", key=f"{R}:saved-dropped")
    ctx.need([1] * n, "snapshot returned")
def uncell_(x):
    return flow.uncell(x) if hasattr(flow, "uncell") else x
def snapshot_target(e, adt, field):
    return m([f"@{adt}.{field}", f"%{adt}%.{field}"], e.target)

def expanded(f, evs):
    """Replacing a collection by a collected one: emptied, then one insertion per item."""
    out = []
    for e in evs:
        its = [i for a in e.args for i in item_states(f, a)] if e.kind == "write" and len(e.args) == 1 else []
        if not its:
            out.append(e)
            continue
        out.append(Ev(f, e.n, e.p, "write", e.target, [("call", "new", ())]))
        for q, v in its:
            d = [x for _, x in v[3]] if v[0] == "agg" and v[1] == "tuple" else [v]
            out.append(Ev(f, f.nodes[f.pnodes[q][0]], q, "grow", e.target, d))
    return out
def loaded(ctx, R, f, dec, target, source, args):
    """Everything in the decoded message is stored; failure to decode is reported."""
    evs = [e for e in place_events(f, target + "%", ("grow", "write", "shrink")) if m([target, target + "[%"], e.target)]
    evs = expanded(f, evs)
    ins = [e for e in evs if e.kind == "grow"]
    table(ctx, R, f, [e for e in evs if not (e.kind == "shrink" and not e.args) and not (e.kind == "write" and e.target == target and cv(e.args[0]) == "new()")], [
        Row("load", args, kind="grow", target=target, never=[("the message cannot be decoded", [V(dec, "no")])],
            foreach=[("for each entry", source, [], [V(dec, "ok")])])], f"contents of {target}")
    scenario(ctx, R, f, "undecodable message", [V(dec, "no")], kind="err")
    rr = live_from(f, None, [V(dec, "ok")])
    off = [o for o in outs(f) if o[0] in rr and o[1] == "err"]
    ctx.check(not off, R, showp(f, off[0][0]) if off else "", "loading fails although the message can be decoded", key=f"{R}:fails")
    # emptied afterwards?
    cl = [e for e in evs if e.kind == "shrink" or (e.kind == "write" and e.target == target)]
    r = f.reach([e.p for e in ins if e.n.kind != "item"], skip_start=True)
    off = [e for e in cl if e.p in r]
    ctx.check(not off, R, f.where(off[0].n) if off else "", "loaded entries are dropped again", key=f"{R}:dropped")

def counter_determinism(ctx):
    R = "determinism"
    replica_independent(ctx, R, cnt(ctx, "on_apply_event"), "applying an event")
    replica_independent(ctx, R, cnt(ctx, "on_load_snapshot"), "loading a snapshot", owned=None)
    replica_independent(ctx, R, cnt(ctx, "on_init"), "initialisation", owned=None)

# ---------------------------------------------------------------- decryptor
DA = "DecryptorActor"
EV = "Message::decode($3.contents)"
GK, DE = EV + ".event.GenerateKeyEvent.0", EV + ".event.DecryptEvent.0"
KP = "self.key_pairs"
def dec(ctx, me):
    return ctx.api(DA, "Actor", me)
def dresp(cor, msg):
    return f"ActorCommand{{correlation_id={cor}, header=Message::encode_to_vec(DecryptorResponse{{msg=Msg::{msg}}}), payload=Bytes::new()}}"
def derr(cor, code="%"):
    return dresp(cor, f"Error{{0=Status{{code={code}, message=%}}}}")
PUB = "GenerateKey{0=GenerateKeyResponse{public_key=Serialize::serialize(%Key()%)}}"
RF = ["", "[RangeFull]"]
is_gen = [V(EV, "ok"), V(EV + ".event", "ok"), V(EV + ".event?", "GenerateKeyEvent")]
is_dec = [V(EV, "ok"), V(EV + ".event", "ok"), V(EV + ".event?", "DecryptEvent")]

def decryptor_once(ctx):
    """A key decrypts at most once."""
    R = "one-time-key"
    f = dec(ctx, "on_apply_event")
    key = [DE + ".key_id" + x for x in RF]
    rm = [e for e in state_events(f) if e.target == KP and e.kind == "shrink" and e.args and m(key, cv(e.args[0]))]
    table(ctx, R, f, rm, [Row("consume", [key], kind="shrink", target=KP, never=[("a key is generated", [V(EV + ".event?", "GenerateKeyEvent")])], always=[("a decryption is applied", is_dec)])], "key")
    rs = [f"remove({KP}, {k})" for k in key] + [f"get({KP}, {k})" for k in key]
    own, oth = [T("$2.owned", True)], [T("$2.owned", False)]
    resp = dresp("$3.correlation_id", f"Decrypt{{0=DecryptResponse{{decryption_response={DE}.decryption_response}}}}")
    ctx.check(any(tested(f, V(r, "ok")) for r in rs), R, f.entry_body.name, "a decryption is answered without checking that it is the one that consumed the key", key=f"{R}:checked")
    scenario(ctx, R, f, "first decryption with a key", is_dec + own + [V(rs, "ok")], cmds=[resp])
    scenario(ctx, R, f, "later decryption with a key", is_dec + own + [V(rs, "no")], cmds=[derr("$3.correlation_id", "9")])
    scenario(ctx, R, f, "decryption requested elsewhere", is_dec + oth)
    # nothing else answers with a decryption
    for q, v in [(q, v) for o in outs(f) for q, v in o[3]]:
        if "Msg::Decrypt" in cv(v):
            ctx.check(q is not None and not [p for p in [q] if p in live_from(f, None, [V(EV + ".event?", "GenerateKeyEvent")])], R, showp(f, q), "a decryption is answered for another event", key=f"{R}:other-event")
    g = dec(ctx, "on_process_command")
    for o in outs(g):
        for q, v in o[3]:
            ctx.check("Msg::Decrypt{" not in cv(v), R, showp(g, q), "a decryption leaves the actor before it was replicated", key=f"{R}:early")
    unchanged(ctx, R, g, "processing a command")

def decryptor_command(ctx):
    R = "decrypt-request"
    f = dec(ctx, "on_process_command")
    Q = IN + ".msg.Decrypt.0"
    L = "ActorContext::leader(self.context)"
    base = [V("$2", "ok"), V(IN, "ok"), T(L, True), V(IN + ".msg", "ok"), V(IN + ".msg?", "Decrypt")]
    K = f"get({KP}, {Q}.key_id)"
    scenario(ctx, R, f, "unknown key", base + [V(K, "no")], cmds=[derr("$2.correlation_id", "9")])
    known = base + [V(K, "ok")]
    DEC = "WillowV1Decryptor::new_with_randomly_generated_seed(ShellVahe::new(create_shell_ahe_config(1), " + Q + ".key_id))"
    STATE = f"FromProto::from_proto(Parse::parse({KP}[{Q}.key_id].decryptor_state), {DEC})"
    PR = f"Parse::parse({Q}.decryption_request)"
    RQ = f"FromProto::from_proto({PR}, {DEC})"
    H = f"SecureAggregationDecryptor::handle_partial_decryption_request({DEC}, {RQ}, {STATE})"
    event = f"ActorEvent{{correlation_id=$2.correlation_id, contents=Message::encode_to_vec(DecryptorEvent{{event=Event::DecryptEvent{{0=DecryptEvent{{key_id={Q}.key_id, decryption_response=Serialize::serialize(ToProto::to_proto({H}, {DEC}))}}}}}})}}"
    for what, ass in (("malformed request", [V(PR, "no")]), ("invalid request", [V(PR, "ok"), V(RQ, "no")]), ("request that cannot be decrypted", [V(PR, "ok"), V(RQ, "ok"), V(H, "no")])):
        scenario(ctx, R, f, what, known + ass, cmds=[derr("$2.correlation_id")])
    scenario(ctx, R, f, "valid request", known + [V(PR, "ok"), V(RQ, "ok"), V(H, "ok")], event=event)

def decryptor_generate(ctx):
    R = "generate-key"
    f = dec(ctx, "on_process_command")
    Q = IN + ".msg.GenerateKey.0"
    L = "ActorContext::leader(self.context)"
    base = [V("$2", "ok"), V(IN, "ok"), T(L, True), V(IN + ".msg", "ok"), V(IN + ".msg?", "GenerateKey")]
    K = f"get({KP}, {Q}.key_id)"
    scenario(ctx, R, f, "existing key", base + [V(K, "ok")], cmds=[dresp("$2.correlation_id", PUB)])
    DEC = "WillowV1Decryptor::new_with_randomly_generated_seed(ShellVahe::new(create_shell_ahe_config(1), " + Q + ".key_id))"
    SHARE = f"Serialize::serialize(ToProto::to_proto(SecureAggregationDecryptor::create_public_key_share({DEC}, %DecryptorState()%), {DEC}%))"
    STATE = f"Serialize::serialize(ToProto::to_proto(%DecryptorState()%, {DEC}))"
    MX = ["max(%", "%max_by_key(%", "fold(%"]
    scenario(ctx, R, f, "new key", base + [V(K, "no")], event=f"ActorEvent{{correlation_id=$2.correlation_id, contents=Message::encode_to_vec(DecryptorEvent{{event=Event::GenerateKeyEvent{{0=GenerateKeyEvent{{public_key_share={SHARE}, private_key_share={STATE}, key_id={Q}.key_id, sequential_order=%}}}}}})}}")
    key_response(ctx, R, f, Q + ".key_id", [f"{KP}[{Q}.key_id].public_key_share"], [V(K, "ok")])
    # the order is one more than the highest so far
    seqs = {cv(y) for o in outs(f) if o[2] is not None for y in find_field(o[2], "GenerateKeyEvent", "sequential_order")}
    for s in sorted(seqs):
        ctx.check(m([f"(% Add 1)", f"(1 Add %)", "1"], s) and (s in ("(0 Add 1)", "1") or "sequential_order" in s or KP in s), R, f.entry_body.name, f"the order of a new key is {s[:200]}", key=f"{R}:order")
    ctx.need(seqs, "order of a new key")
    mx = [n for n in f.calls(m={"max", "max_by_key", "min", "min_by_key", "fold", "last"}) if n.id in f.reached and f.nargs(n) and not n.d.get("macs")]
    for n in mx:
        ctx.check(n.d["cal"].m not in ("min", "min_by_key", "last"), R, f.where(n), "the order of a new key does not follow the highest one", key=f"{R}:highest")

    g = dec(ctx, "on_apply_event")
    E_ = f"get({KP}, {GK}.key_id)"
    LEN = [f"len({KP})"]
    full, room = [REL(LEN, "=", "1000")], [REL(LEN, "<", "1000")]
    ctx.check(tested(g, V(E_, "ok")), R, g.entry_body.name, "it is not checked whether the key exists when it is stored", key=f"{R}:exists")
    ctx.check(tested(g, full[0]), R, g.entry_body.name, "the number of keys is not compared with the limit", key=f"{R}:limit")
    evs = [e for e in state_events(g) if not (e.kind == "shrink" and e.args and m([DE + ".key_id" + x for x in RF], cv(e.args[0])))]
    other = [("the key exists", [V(E_, "ok")]), ("the event is a decryption", [V(EV + ".event?", "DecryptEvent")]), ("the event cannot be decoded", [V(EV, "no")])]
    table(ctx, R, g, evs, [
        Row("store", [GK + ".key_id", f"KeyPair{{public_key_share={GK}.public_key_share, decryptor_state={GK}.private_key_share, sequential_order={GK}.sequential_order}}"], kind="grow", target=KP,
            never=other, always=[("a new key is generated", is_gen + [V(E_, "no")])]),
        Row("evict", [KP + "[*].0"], kind="shrink", target=KP, never=other + [("there is room", room)])], "keys")
    base = is_gen + full + [V(E_, "no")]
    av = {e.p for e in evs if e.kind == "shrink"}
    # a loop written out: once it saw a key it must evict one
    pick = any(n.id in g.reached and n.d and n.d.get("pick") for n in g.nodes)
    first = [] if pick else [t for h in loops(g, KP) for _, t in loop_edges(g, h, KP)[0]]
    over = (live_from(g, first, base, avoid=av) if first else set()) | live_from(g, None, base + [V(f"next({KP})", "ok")], avoid=av)
    off = [p for p in g.ends() if p in over]
    ctx.check(not off and bool(av & live_from(g, None, base)), R, showp(g, off[0]) if off else g.entry_body.name, "no key is evicted although all places are taken", key=f"{R}:evicts")
    st = [e.p for e in evs if e.kind == "grow"]
    ev = [e.p for e in evs if e.kind == "shrink"]
    r = g.reach(st, skip_start=True)
    off = [e for e in evs if e.kind == "shrink" and e.p in r]
    ctx.check(not off, R, g.where(off[0].n) if off else "", "a key may be evicted after it was stored", key=f"{R}:evict-late")
    picks = {}
    for n in g.nodes:
        if n.id in g.reached and n.d and n.d.get("pick"):
            k, d = n.d["pick"]
            picks.setdefault((k, n.id), set()).update(cv(g.desc(d, g.env_of(p))) for p in g.bynode[n.id])
    for (k, i), vs in picks.items():
        ctx.check(k.startswith("min_by"), R, g.where(i), f"not the oldest key is evicted: {k}", key=f"{R}:oldest")
        ctx.check(k == "min_by" or all(m(KP + "[*].1.sequential_order", v) for v in vs), R, g.where(i), f"the key to evict is chosen by {sorted(vs)}", key=f"{R}:oldest")
    if not picks:
        cmp_ = any(k[0] == "lt" and all("sequential_order" in ck(x) for x in k[1:]) for o in g.psucc for t, fs in o or [] for k, v in fs)
        srt = [n for n in g.calls(m={"sort_by_key", "sort_unstable_by_key", "min", "sort_by", "sort"}) if n.id in g.reached]
        ctx.check(cmp_ or srt, R, g.entry_body.name, "the key to evict is not chosen by its order", key=f"{R}:oldest")
    own, oth = [T("$2.owned", True)], [T("$2.owned", False)]
    scenario(ctx, R, g, "key requested here", is_gen + own, cmds=[dresp("$3.correlation_id", PUB)])
    scenario(ctx, R, g, "key requested elsewhere", is_gen + oth)
    key_response(ctx, R, g, GK + ".key_id", [f"{KP}[{GK}.key_id].public_key_share"], [V(E_, "ok")])
    key_response(ctx, R, g, GK + ".key_id", [f"{GK}.public_key_share", f"{KP}[{GK}.key_id].public_key_share"], [V(E_, "no")])
def find_field(t, adt, name):
    for x in subterms(t):
        if x[0] == "agg" and short(x[1]) == adt and name in dict(x[3]):
            yield dict(x[3])[name]
def key_response(ctx, R, f, kid, shares, assume):
    """The serialised key carries the id asked for and the share stored under it."""
    rr = live_from(f, None, assume)
    for name, want in (("set_key_id", [kid]), ("set_key_material", shares)):
        es = [e for e in call_events(f, "%" + name) if e.p in rr]
        ctx.need(es, f"{name} of a key")
        for e in es:
            for v in alts(e.args[1]):
                ctx.check(m(want, cv(v)), R, f.where(e.n), f"{name} with {cv(v)[:200]}", key=f"{R}:{name}")
        ser = [e for e in call_events(f, "Serialize::serialize") if e.p in rr and "Key()" in cv(e.args[0]) and "default:Key" in cv(e.args[0])]
        for s in ser:
            ctx.check(s.p not in live_from(f, None, assume, avoid={e.p for e in es}), R, f.where(s.n), f"a key is serialised without {name}", key=f"{R}:{name}:missing")

def decryptor_gate(ctx):
    R = "command-gate"
    f = dec(ctx, "on_process_command")
    L = "ActorContext::leader(self.context)"
    some = [V("$2", "ok")]
    scenario(ctx, R, f, "no command", [V("$2", "no")])
    scenario(ctx, R, f, "undecodable command", some + [V(IN, "no")], kind="err")
    scenario(ctx, R, f, "not the leader", some + [V(IN, "ok"), T(L, False)], cmds=[derr("$2.correlation_id", "9")])
    scenario(ctx, R, f, "unknown request", some + [V(IN, "ok"), T(L, True), V(IN + ".msg", "no")], cmds=[derr("$2.correlation_id", "3")])
    ctx.check(tested(f, T(L)), R, f.entry_body.name, "leadership is not checked", key=f"{R}:leader")
    g = dec(ctx, "on_apply_event")
    scenario(ctx, R, g, "undecodable event", [V(EV, "no")], kind="err", changes=False)
    scenario(ctx, R, g, "unknown event requested here", [V(EV, "ok"), V(EV + ".event", "no"), T("$2.owned", True)], cmds=[derr("$3.correlation_id", "3")], changes=False)
    scenario(ctx, R, g, "unknown event requested elsewhere", [V(EV, "ok"), V(EV + ".event", "no"), T("$2.owned", False)], changes=False)

def decryptor_snapshot(ctx):
    R = "snapshot"
    f = dec(ctx, "on_save_snapshot")
    unchanged(ctx, R, f, "saving a snapshot")
    k, v = KP + "[*].0", KP + "[*].1"
    saved(ctx, R, f, "DecryptorSnapshot", "key_pairs", KP, f"SnapshotKeyPair{{public_key_share={v}.public_key_share, private_key_share={v}.decryptor_state, key_id={k}, sequential_order={v}.sequential_order}}")
    f = dec(ctx, "on_load_snapshot")
    S = "Message::decode($2)"
    s = S + ".key_pairs[*]"
    loaded(ctx, R, f, S, KP, S + ".key_pairs", [s + ".key_id", f"KeyPair{{public_key_share={s}.public_key_share, decryptor_state={s}.private_key_share, sequential_order={s}.sequential_order}}"])
    # keys that were consumed since do not survive
    cl = [e.p for e in place_events(f, KP, ("shrink", "write")) if e.kind == "write" or not e.args]
    r = live_from(f, None, [V(S, "ok")], avoid=set(cl))
    off = [p for p in f.ends() if p in r]
    ctx.check(not off, R, f.entry_body.name, "keys that are not in the snapshot stay", key=f"{R}:stale-keys")

def decryptor_determinism(ctx):
    R = "determinism"
    replica_independent(ctx, R, dec(ctx, "on_apply_event"), "applying an event")
    replica_independent(ctx, R, dec(ctx, "on_load_snapshot"), "loading a snapshot", owned=None)
    replica_independent(ctx, R, dec(ctx, "on_init"), "initialisation", owned=None)
