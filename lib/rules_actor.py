"""Tablet cache actor: C50."""
from rlib import *
from rules_coord import once, both
from rules_mgr import delegates, returned

A = "TabletCacheActor"
MM, SS = "self.transaction_manager", "self.key_value_store"
IN = "Message::decode($2.header).in_msg"
KINDS = ["PutKeyRequest", "GetKeyRequest", "LoadTabletResponse", "StoreTabletResponse", "ExecuteTabletOpsResponse", "ExecuteTabletOpsError"]
def act(ctx, me):
    return ctx.api(A, "Actor", me)
def fields(t, name, out):
    """Values of a field of the aggregates of a term."""
    for x in alts(t):
        while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Ok", "Some") and len(x[3]) == 1):
            x = x[1] if x[0] == "pay" else x[3][0][1]
        if x[0] == "agg" and name in dict(x[3]):
            out.append(dict(x[3])[name])

def routing(ctx):
    R = "commands-routed"
    f = act(ctx, "on_process_command")
    def no(*w):
        return [("there is no command", [V("$2", "no")]), ("the header cannot be decoded", [V("Message::decode($2.header)", "no")])] + [(f"the command is {v}", [V(IN + "?", v)]) for v in KINDS if v not in w]
    def row(k, args, extra=()):
        base = [V("$2", "ok"), V("Message::decode($2.header)", "ok"), V(IN, "ok"), V(IN + "?", k)]
        return Row(k, args, never=no(k), always=[(f"a {k} arrives", base + list(extra))])
    I, X = "$2.correlation_id", IN + ".%s.0"
    st = call_events(f, "KeyValueStore::process_request")
    table(ctx, R, f, st, [row("PutKeyRequest", [SS, f"KeyValueRequest::Put{{0={I}, 1={X % 'PutKeyRequest'}}}"]), row("GetKeyRequest", [SS, f"KeyValueRequest::Get{{0={I}, 1={X % 'GetKeyRequest'}}}"])], "requests of clients")
    once(ctx, R, f, st, "requests of clients")
    mg = call_events(f, "TabletTransactionManager::process_in_message")
    D = "Message::decode($2.payload)"
    table(ctx, R, f, mg, [row("LoadTabletResponse", [MM, f"InMessage::LoadTabletResponse{{0={I}, 1={X % 'LoadTabletResponse'}, 2=$2.payload}}"]),
                          row("StoreTabletResponse", [MM, f"InMessage::StoreTabletResponse{{0={I}, 1={X % 'StoreTabletResponse'}}}"]),
                          row("ExecuteTabletOpsResponse", [MM, f"InMessage::ExecuteTabletOpsResponse{{0={I}, 1={X % 'ExecuteTabletOpsResponse'}, 2={D}}}"], [V(D, "ok")]),
                          row("ExecuteTabletOpsError", [MM, f"InMessage::ExecuteTabletOpsError{{0={I}, 1={X % 'ExecuteTabletOpsError'}}}"])], "responses of the host")
    once(ctx, R, f, mg, "responses of the host")
    # undecodable input ends in an error and nothing else
    for what, ass in (("header that cannot be decoded", [V("Message::decode($2.header)", "no")]), ("header without a message", [V("Message::decode($2.header)", "ok"), V(IN, "no")]),
                      ("payload that cannot be decoded", [V("Message::decode($2.header)", "ok"), V(IN, "ok"), V(IN + "?", "ExecuteTabletOpsResponse"), V(D, "no")])):
        r = live_from(f, None, [V("$2", "ok")] + ass)
        seen = set()
        for p, t in ret_values(f):
            if p in r:
                seen |= {x[2] if x[0] == "agg" else cv(x) for x in alts(t)}
        ctx.check(seen == {"Err"}, R, f.entry_body.name, f"a command with a {what} ends in {sorted(map(str, seen))}", key=f"{R}:undecodable:{what}")
        off = [n for n in f.nodes if n.kind in ("panic", "unreachable")]
        bad = [e for e in st + mg if e.p in r]
        ctx.check(not bad, R, f.entry_body.name, f"a command with a {what} is processed", key=f"{R}:undecodable-processed:{what}")

def progress(ctx):
    R = "progress-and-output"
    f = act(ctx, "on_process_command")
    NOW = "ActorContext::instant(self.context)"
    rets = ret_values(f)
    good = [p for p, t in rets if any(not (x[0] == "agg" and x[2] == "Err") for x in alts(t))]
    steps = []
    for name, args in (("TabletTransactionManager::make_progress", [MM, NOW]), ("KeyValueStore::make_progress", [SS, NOW, MM]), ("TabletTransactionManager::take_out_messages", [MM]), ("KeyValueStore::take_responses", [SS])):
        ev = call_events(f, name)
        ctx.need(ev, name)
        table(ctx, R, f, ev, [Row(name, args)], name)
        once(ctx, R, f, ev, name)
        r = live_from(f, None, (), avoid={e.p for e in ev})
        off = [p for p in good if p in r]
        ctx.check(not off, R, f.entry_body.name, f"a command can complete without {name}", key=f"{R}:{name}:skipped")
        steps.append((name, ev))
    # both progress steps come before the output is taken, after the input was processed
    ins = call_events(f, "KeyValueStore::process_request") + call_events(f, "TabletTransactionManager::process_in_message")
    mp = [e for n, ev in steps if "make_progress" in n for e in ev]
    tk = [e for n, ev in steps if "take" in n for e in ev]
    for first, later, text in ((ins, mp, "progress is made before the command is processed"), (mp, tk, "output is taken before progress is made")):
        r = live_from(f, [e.p for e in later], ())
        off = [e for e in first if e.p in r]
        ctx.check(not off, R, f.where(off[0].n) if off else f.entry_body.name, text, key=f"{R}:order:{text}")
    TO, TS = "TabletTransactionManager::take_out_messages(self.transaction_manager)", "KeyValueStore::take_responses(self.key_value_store)"
    def cmd(X, var, out, payload):
        e = f"{X}[*].{var}"
        return [f"ActorCommand{{correlation_id={e}.0, header=Message::encode_to_vec(TabletCacheOutMessage{{out_msg=OutMsg::{out}{{0={e}.1}}}}), payload={x}}}" for x in payload]
    none = ["Bytes::new()", "Message::encode_to_vec(Bytes::new())", "default:Bytes()"]
    rows = [("a load request", cmd(TO, "LoadTabletRequest", "LoadTabletRequest", none), TO, [V(TO + "[*]", "LoadTabletRequest")]),
            ("a store request", cmd(TO, "StoreTabletRequest", "StoreTabletRequest", [TO + "[*].StoreTabletRequest.2"]), TO, [V(TO + "[*]", "StoreTabletRequest")]),
            ("a tablet operation request", cmd(TO, "ExecuteTabletOpsRequest", "ExecuteTabletOpsRequest", [f"Message::encode_to_vec({TO}[*].ExecuteTabletOpsRequest.2)"]), TO, [V(TO + "[*]", "ExecuteTabletOpsRequest")]),
            ("a put response", cmd(TS, "Put", "PutKeyResponse", none), TS, [V(TS + "[*]", "Put")]),
            ("a get response", cmd(TS, "Get", "GetKeyResponse", none), TS, [V(TS + "[*]", "Get")])]
    pairs = []
    for p, t in rets:
        if p not in good:
            continue
        cs = []
        fields(t, "commands", cs)
        ctx.need(cs, "commands of the outcome")
        pairs += [(p, c) for c in cs]
        es = []
        fields(t, "event", es)
        ctx.check(all(cv(e) == "None" for e in es), R, f.entry_body.name, "the tablet cache proposes an event", key=f"{R}:event")
    collected(ctx, R, f, pairs, rows, "outgoing commands")

def init(ctx):
    R = "actor-init"
    f = act(ctx, "on_init")
    CFG = "Message::decode(ActorContext::config(%))"
    ok = [V(CFG, "ok")]
    for name, recv, fld in (("KeyValueStore::init", SS, "store_config"), ("TabletTransactionManager::init", MM, "transaction_manager_config")):
        ev = call_events(f, name)
        ctx.need(ev, name)
        table(ctx, R, f, ev, [Row(name, [recv, None, f"{CFG}.{fld}"], never=[("the configuration cannot be decoded", [V(CFG, "no")])], always=[("the configuration is valid", ok)])], name)
        once(ctx, R, f, ev, name)
    r = live_from(f, None, [V(CFG, "no")])
    seen = {x[2] if x[0] == "agg" else cv(x) for p, t in ret_values(f) if p in r for x in alts(t)}
    ctx.check(seen == {"Err"}, R, f.entry_body.name, f"a configuration that cannot be decoded ends in {sorted(map(str, seen))}", key=f"{R}:undecodable")
    ws = place_events(f, "self.context", ("write",))
    table(ctx, R, f, ws, [Row("context", ["$2"], kind="write", always=[("always", [])])], "context")
