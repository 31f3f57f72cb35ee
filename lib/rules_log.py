"""Logger of the runtime, as built with the standard library and for the enclave."""
from rlib import *
from rules_coord import once

BUILDS = ("tcp_runtime", "tcp_runtime_enclave")
LEVELS = {"Critical": "Critical", "Error": "Error", "Warning": "Warning", "Info": "Info", "Debug": "Debug", "Trace": "Trace"}
def builds(rule):
    def run(ctx):
        for c in BUILDS:
            ctx.only = c
            try:
                rule(ctx, c)
            finally:
                ctx.only = None
    run.__name__ = rule.__name__
    return run
def entries(f):
    """The list of messages, whatever the drain calls it."""
    return sorted({e.target for e in place_events(f, "self.%") if e.kind in ("grow", "shrink", "write")})

@builds
def record(ctx, c):
    R = "record"
    f = ctx.api("RemoteDrain", "Drain", "log")
    ev = [e for e in place_events(f, "self%")]
    grow = [e for e in ev if e.kind == "grow"]
    ctx.need(grow, "message added to the log")
    for e in ev:
        ctx.check(e.kind == "grow" and e.n.d["cal"].m in ("push", "push_back", "extend"), R, f.where(e.n), f"{c}: a record does more than add a message at the end: {e.text()[:160]}", key=f"{R}:{c}:only")
    once(ctx, R, f, grow, f"{c}: message of a record")
    off = [p for p in f.ends() if p in live_from(f, None, avoid={e.p for e in grow})]
    ctx.check(not off, R, f.entry_body.name, f"{c}: a record may be left out", key=f"{R}:{c}:dropped")
    for p, t in ret_values(f):
        ctx.check(not any(x[0] == "err" or (x[0] == "agg" and x[2] == "Err") for x in alts(t)), R, showp(f, p), f"{c}: logging fails", key=f"{R}:{c}:fails")
    # severity
    for lv, sv in LEVELS.items():
        r = live_from(f, None, [V("Record::level($2)", lv)])
        es = [e for e in grow if e.p in r]
        ctx.check(bool(es), R, f.entry_body.name, f"{c}: no message for level {lv}", key=f"{R}:{c}:level")
        for e in es:
            for v in alts(e.args[-1]):
                d = dict(v[3]) if v[0] == "agg" else dict(v[2]) if v[0] == "upd" else {}
                d = {k: x for k, x in d.items() if not (k == "severity" and cv(x).startswith("default:"))}
                sets = [x for x in call_events(f, "%set_severity") if x.p in r]
                s = cv(d["severity"]) if "severity" in d else " | ".join(sorted({cv(x.args[-1]) for x in sets})) or cv(v)
                if sets and "severity" not in d:
                    ctx.check(e.p not in live_from(f, None, [V("Record::level($2)", lv)], avoid={x.p for x in sets}), R, f.where(e.n), f"{c}: the severity is not always set", key=f"{R}:{c}:severity")
                ctx.check(m([f"LogSeverity::{sv}", f"{sv}"], s), R, f.where(e.n), f"{c}: level {lv} is reported as {s[:100]}", key=f"{R}:{c}:severity")
    ctx.check(tested_level(f), R, f.entry_body.name, f"{c}: the level does not decide the severity", key=f"{R}:{c}:level-tested")
    # text
    for e in grow:
        for v in alts(e.args[-1]):
            d = dict(v[3]) if v[0] == "agg" else dict(v[2]) if v[0] == "upd" else {}
            msg = d.get("message", v)
            sub = {cv(x) for x in subterms(msg)}
            for what, pats in (("text", ["Record::msg($2)"]), ("level", ["Record::level($2)", "%as_str(Record::level($2))"]), ("file", ["Record::file($2)"]), ("line", ["Record::line($2)"])):
                ctx.check(any(m(pats, s) for s in sub), R, f.where(e.n), f"{c}: the message lacks the {what}: {cv(msg)[:300]}", key=f"{R}:{c}:{what}")
            for x in subterms(msg):
                s = cv(x)
                if s.startswith("Record::file($2)["):
                    ctx.check(s == "Record::file($2)[RangeFrom{start=(1 Add rfind(Record::file($2), '/'))}]", R, f.where(e.n), f"{c}: the file is reported as {s}", key=f"{R}:{c}:file-name")
    for what, pat in (("values of the record", "Record::kv($2)"), ("values of the logger", "$3")):
        es = [e for e in call_events(f, "%serialize") if e.args and m([pat, pat + "%"], cv(e.args[0])) and any("ValueSerializer" in cv(a) for a in e.args)]
        ctx.need(es, f"serialisation of the {what}")
        outs = {x for e in es for a in e.args for x in subterms(a) if x[0] == "call" and cv(x) == "new()"}
        for g in grow:
            ctx.check(bool(outs & {x for a in g.args for x in subterms(a)}) or "ValueSerializer" in cv(g.args[-1]), R, f.where(g.n), f"{c}: the message lacks the {what}", key=f"{R}:{c}:values")
        off = [g for g in grow if g.p in live_from(f, None, avoid={e.p for e in es})]
        ctx.check(not off, R, f.where(off[0].n) if off else "", f"{c}: the {what} are left out", key=f"{R}:{c}:kv")
        for e in es:
            ctx.check(m(["$2", "%Record%"], cv(e.args[1])), R, f.where(e.n), f"{c}: the {what} are serialised for {cv(e.args[1])}", key=f"{R}:{c}:kv-record")
def tested_level(f):
    return any(k[0] == "var" and "Record::level($2)" in ck(k[1]) for o in f.psucc for t, fs in o or [] for k, v in fs)

@builds
def values(ctx, c):
    R = "values"
    f = ctx.api("ValueSerializer", "Serializer", "emit_arguments")
    out = []
    for n in f.nodes:
        if n.kind != "call" or n.id not in f.reached or n.d["cal"] is None:
            continue
        mm = n.d["cal"].m
        if mm in ("push_str", "write_fmt", "write_str", "add_assign", "extend", "push"):
            for p in f.bynode[n.id]:
                a = [f.argt(n, i, f.env_of(p)) for i in range(f.nargs(n))]
                if a and m(["self.output", "self"], cv(a[0])):
                    out.append((n, p, " ".join(cv(x) for x in a[1:])))
    ctx.need(out, "output of a value")
    for e in place_events(f, "self%"):
        ok = e.kind == "grow" or (e.kind == "write" and "self.output" in cv(e.args[-1]))
        ctx.check(ok, R, f.where(e.n), f"{c}: values written before are lost: {e.text()[:160]}", key=f"{R}:{c}:lost")
        if ok and e.kind == "write":
            out.append((e.n, e.p, cv(e.args[-1])))
    for what, arg in (("key", "$2"), ("value", "$3")):
        ps = {p for _, p, s in out if arg in s}
        off = [p for p in f.ends() if p in live_from(f, None, avoid=ps)]
        ctx.check(bool(ps) and not off, R, f.entry_body.name, f"{c}: the {what} is left out", key=f"{R}:{c}:{what}")
    for p, t in ret_values(f):
        ctx.check(not any(x[0] == "err" or (x[0] == "agg" and x[2] == "Err") for x in alts(t)), R, showp(f, p), f"{c}: a value fails, which brings the application down", key=f"{R}:{c}:fails")

@builds
def take(ctx, c):
    R = "take-entries"
    f = ctx.api("RemoteDrainCore", "DrainOutput", "take_entries")
    E = "self.entries"
    ev = place_events(f, "self%")
    whole, kinds = set(), {}
    moved = [e for e in call_events(f, "append") if len(e.args) == 2 and cv(e.args[1]) == E]
    whole |= {e.p for e in moved}
    for n in f.calls(m={"rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "swap", "rotate_left", "rotate_right", "rev_chunks", "pop", "next_back"}):
        ctx.check(n.id not in f.reached, R, f.where(n), f"{c}: the order of the messages is changed", key=f"{R}:{c}:order")
    for e in ev:
        full = e.target == E and (e.kind == "shrink" and (not e.args or cv(e.args[0]) in ("RangeFull", "new()") or e.n.kind == "call" and e.n.d["cal"] is not None and e.n.d["cal"].m == "split_off" and cv(e.args[0]) == "0" or e.n.kind == "call" and e.n.d["cal"] is not None and e.n.d["cal"].m in ("clear", "take", "replace")) or e.kind == "write" and cv(e.args[-1]) == "new()")
        full = full and not (e.n.kind == "call" and e.n.d["cal"] is not None and e.n.d["cal"].m in ("pop", "pop_front", "pop_back"))
        if ctx.check(full, R, f.where(e.n), f"{c}: not exactly everything is taken: {e.text()[:160]}", key=f"{R}:{c}:all"):
            whole.add(e.p)
    off = [p for p in f.ends() if p in live_from(f, None, avoid=whole)]
    ctx.check(bool(whole) and not off, R, f.entry_body.name, f"{c}: messages that were taken stay and are returned again", key=f"{R}:{c}:stay")
    for p, t in ret_values(f):
        for x in alts(t):
            s = cv(x)
            good = m(["collect(self.entries)", "self.entries", "take(self.entries)", "collect(take(self.entries))", "replace(self.entries, new())", "collect(drain(self.entries%))"], s)
            if not good and s == "split_off(self.entries, 0)":
                good = True
            if not good and moved and is_local_coll(x):
                good = all(cv(q.args[0]) == s for q in moved) and not [q for q in pushes(f, x) if q.id not in {q2.n.id for q2 in moved}]
            if not good:
                its = item_states(f, x)
                okk, why = foreach_states(f, [q for q, _ in its], E) if its else (False, "")
                good = bool(its) and okk and all(cv(v) == E + "[*]" for _, v in its) and not any(shrinks_before(f, x, f.nodes[f.pnodes[p][0]]))
            ctx.check(good, R, showp(f, p), f"{c}: not all messages are returned in order: {s[:200]}", key=f"{R}:{c}:returned")
    ctx.need(list(ret_values(f)), "result of take_entries")

@builds
def wiring(ctx, c):
    R = "wiring"
    f = ctx.flow(ctx.body(name="create_remote_logger"))
    n = 0
    for p, t in ret_values(f):
        for x in alts(t):
            d = dict(x[3]) if x[0] == "agg" else {}
            if not ctx.check("0" in d and "1" in d, R, showp(f, p), f"{c}: the logger returned is {cv(x)[:200]}", key=f"{R}:{c}:shape"):
                continue
            cores = lambda y: {z for z in subterms(y) if z[0] == "agg" and short(z[1]) == "RemoteDrainCore"}
            a, b = cores(d["0"]), cores(d["1"])
            n += 1
            ctx.check(len(a) == 1 and a == b, R, showp(f, p), f"{c}: messages logged do not reach the output: the logger uses {sorted(map(cv, a))}, the output {sorted(map(cv, b))}", key=f"{R}:{c}:shared")
            filt = [z for z in subterms(d["0"]) if z[0] in ("call", "agg") and any(q in z[1] for q in ("Filter", "filter"))]
            ctx.check(not filt, R, showp(f, p), f"{c}: records are filtered: {cv(filt[0])[:120] if filt else ''}", key=f"{R}:{c}:filter")
    ctx.need([1] * n, "remote logger")
