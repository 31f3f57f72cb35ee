"""Vocabulary of the rules: canonical access paths, assumptions on branch
outcomes, effects on state and path rules over the inlined flow graphs."""
import re
import flow
from flow import Flow, alts, subterms, mk_phi, compatible, OKV
from mir import short, strip_wrappers
from core import Anchor

NEWS = flow.NEWS
COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor", "AddUnchecked", "MulUnchecked"}

_memo = ({}, {})
def ck(t):
    """Canonical string of a tested term: `get(m, k)` / `next(c)` for the bare
    lookup, one trailing ? per payload taken at the outside."""
    r = _memo[0].get(t)
    if r is None:
        n, u = 0, t
        while u[0] == "pay" and u[1][0] not in ("next", "get"):
            u = u[1]
            n += 1
        if u[0] == "get":
            r = f"get({cv(u[1])}, {cv(u[2])})"
        elif u[0] == "next":
            r = f"next({cv(u[1])})"
        elif replaced(u):
            r = cv(u[2][0])
        else:
            r = cv(u)
        r = _memo[0][t] = r + "?" * n
    return r
def replaced(t):
    """The previous value of a place, as mem::replace returns it."""
    return t[0] == "call" and t[1] == "replace" and len(t[2]) == 2 and t[2][0][0] in ("fld", "pay", "arg")
def cv(t):
    """Canonical string of a value: payload markers and Some/Ok dropped."""
    return _cs(t, 1)
def _cs(t, drop):
    m = _memo[drop]
    r = m.get(t)
    if r is None:
        r = m[t] = _cs0(t, drop)
    return r
def _cs0(t, d):
    k = t[0]
    c = lambda x: _cs(x, d)
    if k == "arg":
        return "self" if t[2] == "self" else f"${t[1]}"
    if k == "k":
        return str(t[1])
    if k == "fld":
        r = t
        while r[0] in ("fld", "pay"):
            r = r[1]
        if replaced(r):
            return f"take({c(subst(t, r, r[2][0]))})"
        return f"{cellname(t[1]) if t[1][0] == 'cell' else c(t[1])}.{t[2]}"
    if k == "cell":
        b = t[2]
        if b[0] != "agg":
            return c(b)
        mu = dict(t[3])
        return short(b[1]) + "{" + ", ".join(f + "=" + ("~" if f in mu else c(x)) for f, x in b[3]) + "}"
    if k == "pay":
        b = t[1]
        if b[0] == "next":
            return c(b[1]) + "[*]"
        if b[0] == "get":
            if at_index(t):
                return c(b[1]) + "[*]"
            return f"{c(b[1])}[{_cs(b[2], 1)}]"
        return c(b) if d else c(b) + "?"
    if k == "err":
        return c(t[1]) + "!err"
    if k == "agg":
        if t[2] in ("Some", "Ok") and len(t[3]) == 1 and d:
            return c(t[3][0][1])
        if t[1] == "tuple":
            return "(" + ", ".join(c(x) for _, x in t[3]) + ")"
        if t[1] == "array":
            return "[" + ", ".join(c(x) for _, x in t[3]) + "]"
        n = t[2] if (t[2] in OKV and short(t[1]) in flow.OKTYPES) else short(t[1]) + ("::" + t[2] if t[2] else "")
        return n + ("{" + ", ".join(f + "=" + c(x) for f, x in t[3]) + "}" if t[3] else "")
    if k == "call":
        if t[1] in NEWS:
            return "new()"
        return f"{t[1]}({', '.join(c(x) for x in t[2])})"
    if k == "get":
        return f"{c(t[1])}[{_cs(t[2], 1)}]" if d else f"get({c(t[1])}, {_cs(t[2], 1)})"
    if k == "next":
        return c(t[1]) + "[*]" if d else f"next({c(t[1])})"
    if k == "bin":
        a, b = c(t[2]), c(t[3])
        op = t[1].replace("Unchecked", "").replace("WithOverflow", "")
        if op in COMM and b < a:
            a, b = b, a
        return f"({a} {op} {b})"
    if k == "un":
        return f"{t[1]}({c(t[2])})"
    if k == "phi":
        return "{" + " | ".join(sorted({c(x) for x in t[1]})) + "}"
    if k == "upd":
        return f"{c(t[1])}+{{{', '.join(f + '=' + c(x) for f, x in t[2])}}}"
    if k == "cl":
        return "closure"
    if k == "fn":
        return "fn:" + t[1].split("::")[-1]
    return k

def cellname(t):
    b = t[2]
    return "@" + (short(b[1]) if b[0] == "agg" else b[0])

_g = {}
def glob(p):
    """% is a wildcard; everything else literal. A list gives alternatives."""
    if isinstance(p, (list, tuple)):
        key = tuple(p)
    else:
        key = (p,)
    r = _g.get(key)
    if r is None:
        r = _g[key] = re.compile("|".join("(?:" + ".*?".join(re.escape(x) for x in q.split("%")) + ")" for q in key))
    return r
def m(p, s):
    return glob(p).fullmatch(s) is not None

# ---------------------------------------------------------------- assumptions
class V:
    """The value at a path is one of these variants (Option/Result: ok/no)."""
    def __init__(self, pat, *vals, adt=None, prog=None):
        self.pat, self.vals = pat, set(vals)
        self.nums = None
        if adt:
            info = prog.adt(adt)
            if not info:
                raise Anchor(f"enum {adt} not found")
            self.nums = {n[1]: n[0] for n in info["variants"]}
            miss = self.vals - {n[0] for n in info["variants"]}
            if miss:
                raise Anchor(f"enum {adt} has no variant {sorted(miss)}")
    def contra(self, k, v):
        if k[0] == "var" and isinstance(v, str):
            c = ck(k[1])
            if self.nums is not None:
                conv = re.fullmatch(r"\w+::from_i32\((.*)\)(\??)", c)
                if conv:
                    c = conv[1] + conv[2]
                # an enum kept as an integer: the conversion may fail
                if c.endswith("?"):
                    c = c[:-1]
                elif v in ("ok", "no"):
                    return v == "no" and m(self.pat, c)
            if m(self.pat, c):
                return not any(compatible(v, x) for x in self.vals)
        if self.nums and k[0] == "eq":
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if b[0] == "k" and b[1] in self.nums and m(self.pat, ck(a)):
                    x = self.nums[b[1]]
                    return x not in self.vals if v else self.vals == {x}
        return False
    def touches(self, k):
        if k[0] == "var":
            c = ck(k[1])
            conv = self.nums and re.fullmatch(r"\w+::from_i32\((.*)\)(\??)", c)
            return m(self.pat, conv[1] if conv else c)
        if self.nums and k[0] == "eq":
            return any(b[0] == "k" and b[1] in self.nums and m(self.pat, ck(a)) for a, b in ((k[1], k[2]), (k[2], k[1])))
        return False
class T:
    def __init__(self, pat, val=True):
        self.pat, self.val = pat, val
    def contra(self, k, v):
        return k[0] == "true" and v != self.val and m(self.pat, ck(k[1]))
    def touches(self, k):
        return k[0] == "true" and m(self.pat, ck(k[1]))
class REL:
    """a REL b for one of the relations in rel, e.g. "<=" or "<>"."""
    def __init__(self, a, rel, b):
        self.a, self.b, self.rel = a, b, set(rel)
        if b == "0" and len(self.rel) > 1:
            self.rel.discard("<")       # counts are unsigned
    def outcome(self, k, v):
        if k[0] not in ("eq", "lt"):
            return None
        x, y = ck(k[1]), ck(k[2])
        if m(self.a, x) and m(self.b, y):
            fl = False
        elif m(self.a, y) and m(self.b, x):
            fl = True
        else:
            return None
        if k[0] == "eq":
            return {"="} if v else {"<", ">"}
        o = {"<"} if v else {"=", ">"}
        if fl:
            o = {{"<": ">", ">": "<"}.get(z, z) for z in o}
        return o
    def contra(self, k, v):
        o = self.outcome(k, v)
        return o is not None and not (o & self.rel)
    def touches(self, k):
        return self.outcome(k, True) is not None

def cut(assume, extra=None):
    """Edge filter removing edges that contradict the assumptions."""
    def av(x, y, f):
        for k, v in f:
            for a in assume:
                if a.contra(k, v):
                    return True
        return bool(extra and extra(x, y, f))
    return av

# ---------------------------------------------------------------- reachability
def live_from(f, starts=None, assume=(), avoid=(), extra=None, skip_start=False):
    c = cut(assume, extra)
    fed = _fed(f) if starts is None and assume else None
    if not fed:
        return f.reach(f.start() if starts is None else starts, avoid=avoid, avoid_edge=c, skip_start=skip_start)
    # a loop over a list built here runs only if something was put into it
    r = set()
    while True:
        k = len(r)
        prev = r
        r = f.reach(f.start(), avoid=avoid, avoid_edge=lambda x, y, fs: ((x, y) in fed and not (fed[(x, y)] & prev)) or c(x, y, fs), skip_start=skip_start)
        if len(r) == k:
            return r
NOFEED = {"next", "iter_mut", "get_mut", "sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "dedup", "as_mut", "as_mut_slice", "values_mut", "into_iter", "reserve", "last_mut", "first_mut", "len", "swap"}
def _fed(f):
    """Edges into the loops over lists built in this function, with the states
    that put something into the list."""
    r = f.__dict__.get("_fedmemo")
    if r is not None:
        return r
    r, memo = {}, {}
    def feeders(kind, x):
        k = (kind, x)
        if k in memo:
            return memo[k]
        out = set()
        for n in f.nodes:
            if n.id not in f.reached:
                continue
            if n.kind == "item" and n.d.get("for") is not None:
                if n.d["for"] == (x if kind == "c" else x[3]):
                    out |= set(f.bynode[n.id])
                elif kind == "n" and f.nodes[n.d["for"]].d.get("args") and x in alts(f.argt(f.nodes[n.d["for"]], 0, None)):
                    out |= set(f.bynode[n.id])
            elif n.kind == "call" and n.d["cal"] is not None and n.d["cal"].m not in NOFEED and n.d["cal"].m not in SHRINK:
                for p in f.bynode[n.id]:
                    env = f.env_of(p)
                    for i in range(f.nargs(n)):
                        t = f.argt(n, i, env)
                        if any(y[0] == "call" and y[3] == (x if kind == "c" else x[3]) and (kind == "c" or y == x) for y in (alts(t) if i == 0 else subterms(t))):
                            if kind == "c" and n.d["cal"].m not in GROW:
                                continue
                            out.add(p)
                            break
        memo[k] = out
        return out
    for x, o in enumerate(f.psucc):
        for y, fs in o or []:
            for k, v in fs:
                if k[0] != "var" or v != "ok":
                    continue
                t = k[1]
                src = None
                if t[0] == "call" and t[1] == "nextof" and t[3] is not None:
                    src = ("c", t[3])
                elif t[0] == "next" and is_local_coll(t[1]):
                    src = ("n", t[1])
                if src:
                    fd = feeders(*src)
                    if fd:
                        r[(x, y)] = fd
    f._fedmemo = r
    return r
def hits(f, targets, assume=(), avoid=(), starts=None, extra=None, skip_start=False):
    """States of the target nodes reachable under the assumptions."""
    av = set(f.P(avoid))
    r = live_from(f, starts, assume, av, extra, skip_start)
    return [p for p in f.P(targets) if p in r]
def ends_hit(f, assume=(), avoid=(), starts=None, skip_start=False, ends=None):
    r = live_from(f, starts, assume, set(f.P(avoid)), None, skip_start)
    return [p for p in (f.ends() if ends is None else ends) if p in r]
def tested(f, a):
    """Whether some branch tests the assumed quantity."""
    for p, o in enumerate(f.psucc):
        for t, fs in o or []:
            if any(a.touches(k) for k, v in fs):
                return True
    return False

# ---------------------------------------------------------------- loops
def loops(f, pat):
    """Loop heads over a collection whose path matches: [(node, "next" term)].
    A head is a branch whose edges carry var(next(coll))."""
    out = []
    for n in f.branches:
        if n.id not in f.reached:
            continue
        for p in f.bynode[n.id]:
            for t, fs in f.psucc[p]:
                for k, v in fs:
                    if k[0] == "var" and is_next(k[1]) and over(pat, next_coll(k[1])):
                        out.append(n)
                        break
                else:
                    continue
                break
            else:
                continue
            break
    return out
def is_next(t):
    return t[0] == "next" or (t[0] == "call" and t[1] == "nextof")
VIEWS = {"rev", "values", "values_mut", "keys", "into_values", "into_keys", "enumerate"}
def over(pat, coll):
    """The collection (or the place it was taken from) matches."""
    return m(pat, cv(coll)) or coll[0] == "call" and coll[1].split("::")[-1] == "take" and len(coll[2]) == 1 and m(pat, cv(coll[2][0]))
def next_coll(t):
    c = _next_coll(t)
    while c[0] == "call" and c[1] in VIEWS and c[2]:
        c = c[2][0]
    return c
def _next_coll(t):
    if t[0] == "next":
        return t[1]
    # nextof(item): the collection the item comes from
    x = t[2][0]
    while True:
        if x[0] == "next":
            return x[1]
        if x[0] in ("pay", "fld"):
            x = x[1]
        elif x[0] == "call" and x[1] == "index" and x[2]:
            return x[2][0]
        elif x[0] == "agg" and x[3]:
            for _, y in x[3]:
                for z in subterms(y):
                    if z[0] == "next":
                        return z[1]
            return x
        else:
            return x
def loop_edges(f, head, pat):
    """(ok edges, no edges) of a loop head: sets of (state, state)."""
    ok, no = set(), set()
    for p in f.bynode[head.id]:
        for t, fs in f.psucc[p]:
            for k, v in fs:
                if k[0] == "var" and is_next(k[1]) and over(pat, next_coll(k[1])):
                    (ok if v == "ok" else no).add((p, t))
    return ok, no

def forall(f, targets, pat, bad, starts=None, base=()):
    """True when no path reaches a target if some element of the collection
    `pat` satisfies all assumptions in `bad` (a list of assumptions about the
    element). Returns (holds, offending states)."""
    hs = loops(f, pat)
    tg = [p for p in f.P(targets) if p in live_from(f, starts, base)]
    if not tg:
        return True, []
    tset = set(tg)
    worst = tg
    for h in hs:
        ok, no = loop_edges(f, h, pat)
        # (1) every path to a target exhausts the loop
        r = live_from(f, starts, base, extra=lambda x, y, fs: (x, y) in no)
        byp = [p for p in tg if p in r]
        if byp:
            # the target may be inside the loop / before it
            worst = byp
            continue
        # (2) an iteration over a bad element never continues to a target
        r2 = live_from(f, [t for _, t in ok], tuple(base) + tuple(bad))
        off = [p for p in tg if p in r2]
        if not off:
            return True, []
        worst = off
    return False, worst

# ---------------------------------------------------------------- effects
GROW = {"insert", "push", "push_back", "push_front", "extend", "append", "extend_from_slice", "or_insert", "or_insert_with", "or_default", "insert_entry",
        "get_or_insert", "get_or_insert_with", "replace", "or_insert_entry", "insert_unique", "resize", "write_all", "put_slice", "try_insert"}
SHRINK = {"remove", "clear", "drain", "retain", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "take", "truncate", "remove_entry", "swap_remove",
          "split_off", "swap_remove_back", "dedup", "extract_if", "split_to", "drain_filter"}

class Eff:
    __slots__ = ("n", "kind", "target", "key", "val", "f", "p")
    def __init__(self, f, n, kind, target, key, val, p=None):
        self.f, self.n, self.kind, self.target, self.key, self.val, self.p = f, n, kind, target, key, val, p
    def __repr__(self):
        return f"{self.kind} {cv(self.target)} [{cv(self.key) if self.key else ''}] := {cv(self.val) if self.val else ''}"

def effects(f, pat=None, kinds=None, per_state=False):
    """Effects on places: insert/push (grow), remove/take (shrink), assignment
    (write). One entry per node, or per (node, state)."""
    out = []
    for n in f.nodes:
        if n.id not in f.reached:
            continue
        if n.kind == "call" and n.d["cal"] is not None:
            c = n.d["cal"]
            if (c.m in GROW or c.m in SHRINK) and f.nargs(n) >= 1 and (c.body is None):
                if "xargs" in n.d and not n.d["xargs"]:
                    continue
                for p, env in _envs(f, n, per_state):
                    t = f.argt(n, 0, env)
                    key = val = None
                    kind = "grow" if c.m in GROW else "shrink"
                    a = [f.argt(n, i, env) for i in range(1, f.nargs(n))]
                    if c.m.startswith("or_") or c.m == "insert_entry":
                        if t[0] == "pay":
                            t = t[1]
                        if t[0] == "get":
                            key, t = t[2], t[1]
                        val = a[0] if a else ("k", "default")
                    elif c.m == "replace" and "Option" in c.p:
                        kind, val = "write", ("agg", "std::option::Option", "Some", (("0", a[0]),))
                    elif c.m == "replace" and "mem" in c.p:
                        kind, val = ("shrink", None) if flow.is_new(a[0]) else ("write", a[0])
                    elif c.m == "insert" and t[0] in ("get",) and len(a) == 1:
                        key, t, val = t[2], t[1], a[0]      # VacantEntry::insert
                    elif c.m == "insert" and t[0] == "pay" and t[1][0] == "get" and len(a) == 1:
                        key, t, val = t[1][2], t[1][1], a[0]
                    elif c.m == "insert" and t[0] in ("err",) and t[1][0] == "get" and len(a) == 1:
                        key, t, val = t[1][2], t[1][1], a[0]
                    elif c.m in ("insert",) and len(a) == 2:
                        key, val = a
                    elif a:
                        val = a[-1]
                        if kind == "shrink":
                            key, val = a[0], None
                    if c.m in ("remove", "remove_entry") and not a and t[0] in ("get", "pay", "err"):
                        u = t[1] if t[0] in ("pay", "err") else t
                        if u[0] == "get":
                            key, t = u[2], u[1]
                    if pat is None or m(pat, cv(t)):
                        if kinds is None or kind in kinds:
                            out.append(Eff(f, n, kind, t, key, val, p))
        pl = n.d.get("place") if n.kind == "assign" else n.d.get("dest") if n.kind in ("ret", "bind", "call") else None
        if pl and len(pl) > 1 and (kinds is None or "write" in kinds or "shrink" in kinds):
            for p, env in _envs(f, n, per_state):
                t = f.wpath(n, env)
                if t is None:
                    continue
                if pat is None or m(pat, cv(t)):
                    key = t[1][2] if t[0] == "pay" and t[1][0] == "get" else None
                    w = f.wval(n, env)
                    if t[0] == "fld" and is_local_coll(w) and not pushes(f, w):
                        # replaced by an empty one
                        if kinds is None or "shrink" in kinds:
                            out.append(Eff(f, n, "shrink", t, None, None, p))
                    elif kinds is None or "write" in kinds:
                        out.append(Eff(f, n, "write", t, key, w, p))
                elif t[0] != "cell" and (kinds is None or "write" in kinds):
                    # a structure replaced as a whole: the fields that change
                    for v in alts(f.wval(n, env)):
                        if v[0] == "agg" and v[1] not in ("tuple", "array") and not v[2]:
                            for fn, x in v[3]:
                                sub = flow.mk_fld(t, fn)
                                if x != sub and m(pat, cv(sub)):
                                    out.append(Eff(f, n, "write", sub, None, x, p))
    return out
def _envs(f, n, per_state):
    if not per_state:
        return [(None, None)]
    seen, out = set(), []
    for p in f.bynode[n.id]:
        e = f.env_of(p)
        out.append((p, e))
    return out

def map_updates(f, pat, per_state=True):
    """Replacements of an entry of a map: insert(key, value) or a write through
    a reference to the entry. pat is the path of the map."""
    out = [e for e in effects(f, pat, ("grow",), per_state) if e.key is not None]
    for e in effects(f, None, ("write",), per_state):
        t = e.target
        u = t
        while u[0] == "pay":
            u = u[1]
        if u[0] == "get" and m(pat, cv(u[1])):
            out.append(Eff(f, e.n, "write", u[1], u[2], e.val, e.p))
        elif t[0] == "fld" and t[2] == "1" and t[1][0] == "pay" and t[1][1][0] == "next" and m(pat, cv(t[1][1][1])):
            out.append(Eff(f, e.n, "write", t[1][1][1], ("fld", t[1], "0"), e.val, e.p))
    return out

# ---------------------------------------------------------------- local collections
def is_local_coll(t):
    return t[0] == "call" and t[1] in NEWS and t[3] is not None
def pushes(f, coll):
    """Nodes that add to a locally created collection: [(node, value term fn)]."""
    out = []
    for n in f.calls(m=GROW):
        for p in f.bynode[n.id]:
            env = f.env_of(p)
            if coll in alts(f.argt(n, 0, env)):
                out.append(n)
                break
    return out
def into(f, n, coll):
    """States of a node that adds to a collection in which it is this one."""
    return [p for p in f.bynode[n.id] if coll in alts(f.argt(n, 0, f.env_of(p)))]
def never_filled(f, coll):
    """A new collection nothing is put into."""
    memo = f.__dict__.setdefault("_nofill", {})
    if coll not in memo:
        def inside(t):
            while t != coll and t[0] in ("fld", "pay", "get", "err"):
                t = t[1]
            return t == coll or t[0] == "agg" and any(inside(y) for _, x in t[3] for y in alts(x))
        memo[coll] = is_local_coll(coll) and not any(
            inside(y) for n in f.calls() if n.d["cal"].m not in READS
            for p in f.bynode[n.id] for i in range(f.nargs(n)) if not given(n, i) for y in alts(f.argt(n, i, f.env_of(p))))
    return memo[coll]
def given(n, i):
    """A list is given away: the callee cannot add to what is kept here."""
    a = n.d.get("args") or ()
    if n.d["cal"].m == "append" and i == 1:
        return True
    if n.d["cal"].body is not None or "xargs" in n.d or i >= len(a) or a[i][0] not in ("c", "m") or len(a[i][1]) != 1:
        return False
    return flow.short(n.inst.body.locals[a[i][1][0]]) in ("Vec", "VecDeque") and not n.inst.body.locals[a[i][1][0]].startswith("&")
def prune(f):
    """Removes branches that ask an empty list for elements, or find a written
    out one empty."""
    def size(t):
        xs = alts(t)
        if all(is_local_coll(x) and never_filled(f, x) for x in xs):
            return 0
        if all(x[0] == "agg" and x[1] == "array" and x[3] for x in xs):
            return 1
    def impossible(k, v):
        if k[0] == "true" and k[1][0] == "call" and k[1][1] == "is_empty" and k[1][2]:
            z = size(k[1][2][0])
            return z is not None and v != (z == 0)
        if k[0] == "var" and v == "ok" and k[1][0] == "next":
            return size(k[1][1]) == 0
        return False
    memo, gone = {}, False
    for p, o in enumerate(f.psucc):
        keep = []
        for t, fs in o or []:
            bad = False
            for k, v in fs:
                if k[0] in ("true", "var"):
                    if (k, v) not in memo:
                        memo[(k, v)] = impossible(k, v)
                    bad = bad or memo[(k, v)]
            if not bad:
                keep.append((t, fs))
        if o and len(keep) < len(o):
            f.psucc[p], gone = keep, True
    if gone:
        live = f.reach(f.start())
        f.bynode = {}
        for i, (nid, _) in enumerate(f.pnodes):
            if i in live:
                f.bynode.setdefault(nid, []).append(i)
            else:
                f.psucc[i] = []
        f.reached = set(f.bynode)
        f.ppred = [[] for _ in f.pnodes]
        for i, o in enumerate(f.psucc):
            for t, fs in o or []:
                f.ppred[t].append((i, fs))
        f.__dict__.pop("_nofill", None)
    return f
READS = {"into_iter", "iter", "next", "len", "is_empty", "drop", "get", "contains", "contains_key", "first", "last"}
def at_index(x):
    """Element at the position of the current element of another list."""
    if x[0] != "pay" or x[1][0] != "get":
        return False
    i = x[1][2]
    return i[0] == "call" and i[1] == "index" and len(i[2]) == 1 and not flow.alignment(i[2][0]) and not flow.partial_iter(i[2][0])
def expand(f, n, term, depth=0):
    """Resolves elements of locally built collections inside a term to what was
    put in there. Returns [(node, term)] where node is the push site (or n)."""
    locs = [x for x in subterms(term) if x[0] == "pay" and (x[1][0] == "next" or at_index(x)) and (is_local_coll(x[1][1]) or is_vec_literal(x[1][1]))]
    if not locs or depth > 3:
        return [(n, term)]
    x = locs[0]
    out = []
    if is_vec_literal(x[1][1]):
        for q, v in sorted({(f.pnodes[p][0], v) for p, v in vec_literal(f, x[1][1])}, key=repr):
            out += expand(f, f.nodes[q], subst(term, x, v), depth + 1)
    if never_filled(f, x[1][1]):
        return []
    for pn in pushes(f, x[1][1]):
        vals = set()
        for p in into(f, pn, x[1][1]):
            env = f.env_of(p)
            i = f.nargs(pn) - 1
            v = f.argt(pn, i, env)
            if pn.d["cal"].m in ("insert",) and f.nargs(pn) == 3:
                v = ("agg", "tuple", "", (("0", f.argt(pn, 1, env)), ("1", v)))
            if pn.d["cal"].m in ("extend", "append", "extend_from_slice"):
                v = f._item(v)
            vals.add(v)
        for v in vals:
            out += expand(f, pn, subst(term, x, v), depth + 1)
    return out or [(n, term)]
def subst(t, a, b):
    if t == a:
        return b
    k = t[0]
    s = lambda x: subst(x, a, b)
    if k == "fld":
        return flow.mk_fld(s(t[1]), t[2])
    if k == "pay":
        return flow.mk_payload(s(t[1]), "Ok", "0")
    if k == "err":
        return flow.mk_payload(s(t[1]), "Err", "0")
    if k == "phi":
        return mk_phi([s(x) for x in t[1]])
    if k == "call":
        return ("call", t[1], tuple(s(x) for x in t[2]), t[3]) + tuple(t[4:])
    if k == "get":
        return ("get", s(t[1]), s(t[2]))
    if k == "next":
        return ("next", s(t[1]))
    if k == "bin":
        return ("bin", t[1], s(t[2]), s(t[3]))
    if k == "un":
        return ("un", t[1], s(t[2]))
    if k == "agg":
        return ("agg", t[1], t[2], tuple((f, s(x)) for f, x in t[3]))
    return t

def argvals(f, n, i):
    """Distinct values of argument i of a call over the states of its node."""
    return {f.argt(n, i, f.env_of(p)) for p in f.bynode[n.id]}

# ---------------------------------------------------------------- program level
def only_compared(b, pl):
    """A local that is only borrowed to be compared with something."""
    def uses(l):
        n = []
        for bb in b.bb:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "setdisc":
                    n += [("st", s) for x in _places(s[1]) if x[:1] == [l]]
                    if len(s[0]) > 1 and s[0][0] == l:
                        n.append(("st", s))
            t = bb[1]
            if t[0] == "call":
                n += [("call", t) for a in t[2] if a[0] in ("c", "m") and a[1][:1] == [l]]
            elif t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][:1] == [l]:
                n.append(("sw", t))
        return n
    if len(pl) != 1 or pl[0] == 0:
        return False
    todo, seen, cmp = [pl[0]], set(), False
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, x in uses(l):
            if k == "st" and x[1][0] in ("ref", "use") and len(x[0]) == 1 and x[0][0] != 0:
                todo.append(x[0][0])
            elif k == "call" and x[1][0] == "fn" and x[1][1].get("tr", "").endswith("PartialEq"):
                cmp = True
            else:
                return False
    return cmp
def _places(rv):
    """Places read by a right-hand side."""
    out = []
    for o in rv[1:]:
        if isinstance(o, list) and o:
            if o[0] in ("c", "m") and len(o) > 1 and isinstance(o[1], list):
                out.append(o[1])
            elif isinstance(o[0], int):
                out.append(o)
            elif isinstance(o[0], list):
                out += [x[1] for x in o if isinstance(x, list) and x and x[0] in ("c", "m")]
    return out
def ctor_sites(prog, adt, variant=None):
    """Bodies that construct a value of an enum variant / struct."""
    out = []
    for b in prog.bodies.values():
        if b.derived:
            continue
        for bb in b.bb:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "setdisc" and s[1][0] == "agg" and s[1][1] == "adt" and short(s[1][2]) == adt and (variant is None or s[1][3] == variant):
                    if not only_compared(b, s[0]):
                        out.append((b, s[2]))
            t = bb[1]
    return out

def referenced(prog):
    r = getattr(prog, "_refs", None)
    if r is None:
        r = set()
        def op(o):
            if o and o[0] == "fn":
                r.add(o[1]["id"]); r.add(o[1].get("r", o[1]["id"]))
        for b in prog.bodies.values():
            for bb in b.bb:
                if bb is None:
                    continue
                for s in bb[0]:
                    if s[0] == "setdisc":
                        continue
                    v = s[1]
                    for o in (v[5] if v[0] == "agg" else [x for x in v[1:] if isinstance(x, list)]):
                        op(o)
                t = bb[1]
                if t[0] == "call":
                    op(t[1])
                    for a in t[2]:
                        op(a)
        prog._refs = r
    return r
def is_dead(prog, b):
    """A private function nothing refers to."""
    while b.kind == "Closure" and b.parent in prog.bodies:
        b = prog.bodies[b.parent]
    return not b.tr and not b.deftr and b.vis != "pub" and b.id not in referenced(prog)

# ---------------------------------------------------------------- reports
def showp(f, p):
    n = f.nodes[f.pnodes[p][0]]
    return f.where(n)

# ---------------------------------------------------------------- events
class Ev:
    """An observable event in one state: effect on a place or a call."""
    __slots__ = ("f", "n", "p", "kind", "target", "args")
    def __init__(self, f, n, p, kind, target, args):
        self.f, self.n, self.p, self.kind, self.target, self.args = f, n, p, kind, target, args
    def text(self):
        return f"{self.kind} {self.target}({', '.join(cv(a)[:240] for a in self.args)})"

def place_events(f, pat, kinds=("grow", "shrink", "write")):
    """Events on the place(s) whose path matches. args: [key, value] for keyed
    insertions, [value] otherwise."""
    key = ("pe", repr(pat), kinds)
    c = f.__dict__.setdefault("_evcache", {})
    if key in c:
        return c[key]
    out = []
    for e in effects(f, pat, kinds, True):
        args = ([e.key] if e.key is not None else []) + ([e.val] if e.val is not None else [])
        out.append(Ev(f, e.n, e.p, e.kind, cv(e.target), args))
    c[key] = out
    return out
def map_events(f, pat):
    """Events that (re)place entries of a map: args = [key, value]."""
    out, seen = [], set()
    for e in map_updates(f, pat, True):
        if (e.n.id, e.p) in seen:
            continue
        seen.add((e.n.id, e.p))
        out.append(Ev(f, e.n, e.p, "set", cv(e.target), [e.key, e.val]))
    return out
def call_events(f, name, recv=None):
    """Calls of an opaque callee by name (Trait::method or method), all states."""
    out = []
    for n in f.nodes:
        if n.kind != "call" or n.id not in f.reached or n.d["cal"] is None:
            continue
        c = n.d["cal"]
        if not (m(name, c.name) or m(name, c.m)):
            continue
        for p in f.bynode[n.id]:
            env = f.env_of(p)
            a = [f.argt(n, i, env) for i in range(f.nargs(n))]
            if recv is not None and not (a and m(recv, cv(a[0]))):
                continue
            out.append(Ev(f, n, p, "call", c.name, a))
    return out
def ret_values(f):
    """(state, term) of the values returned by the entry function."""
    out = []
    for p in f.ends():
        out.append((p, f.local_term(f.root, 0, f.env_of(p))))
    return out
def ret_states(f):
    """Values returned, evaluated where they are defined: [(state, term)].
    Every definition of the return place is listed with its states."""
    out = []
    defs = f.root.defs.get(0, [])
    for nid, d in defs:
        for p in f.bynode.get(nid, []):
            out.append((p, f.desc(d, f.env_of(p))))
    return out

# elements of a collection value
def pushed(f, x):
    """What is added to a collection after its creation: [(nodes, term)]."""
    out = []
    for pn in pushes(f, x):
        items = [q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == pn.id]
        if items:
            vals = {f.desc(q.d["desc"], f.env_of(p)) for q in items for p in f.bynode[q.id]}
            nodes = items
        else:
            nodes = [pn]
            vals = set()
            for p in into(f, pn, x):
                env = f.env_of(p)
                v = f.argt(pn, f.nargs(pn) - 1, env)
                if pn.d["cal"].m == "insert" and f.nargs(pn) == 3:
                    v = ("agg", "tuple", "", (("0", f.argt(pn, 1, env)), ("1", v)))
                if pn.d["cal"].m in ("extend", "append", "extend_from_slice"):
                    v = f._item(v)
                vals.add(v)
        for v in vals:
            for n2, v2 in expand(f, pn, v):
                out.append((nodes if n2 is pn else [n2], v2))
    return out
def is_vec_literal(x):
    return x[0] == "call" and x[1] == "box_assume_init_into_vec_unsafe" and len(x[2]) == 1
def vec_literal(f, x):
    """Elements of vec![..]: the array stored in the fresh box: [(state, term)]."""
    w = f.__dict__.get("_boxw")
    if w is None:
        w = f._boxw = {}
        for e in effects(f, "%new_uninit()%", ("write",), True):
            t = e.target
            while t[0] in ("fld", "pay"):
                t = t[1]
            for y in alts(e.val) if e.val is not None else ():
                for _, v in (y[3] if y[0] == "agg" and y[1] == "array" else ()):
                    w.setdefault(t, []).append((e.p, v))
    return w.get(x[2][0], [])
def elem_sites(f, n, coll):
    """What a collection value consists of: [(nodes that add it, term)].
    The nodes are empty for a value that comes from elsewhere as a whole."""
    out = []
    for x in alts(coll):
        while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Some", "Ok") and len(x[3]) == 1):
            x = x[1] if x[0] == "pay" else x[3][0][1]
        if is_local_coll(x):
            out += pushed(f, x)
        elif x[0] == "call" and x[1] in ("collect",) and len(x) > 4:
            items = [q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == x[3]]
            vals = {f.desc(q.d["desc"], f.env_of(p)) for q in items for p in f.bynode[q.id]} or {x[4]}
            # everything the lists of a flat_map contain is taken over
            flat = bool(x[2]) and x[2][0][0] == "call" and x[2][0][1].split("::")[-1] == "flat_map"
            for v in vals:
                for n2, v2 in expand(f, n, v):
                    out.append((items if n2 is n or not flat else [n2], v2))
            out += pushed(f, x)
        elif x[0] == "fld" and x[1][0] == "call" and x[1][1] == "collect" and len(x[1]) > 4 and any(q.kind == "item" and q.d.get("for") == x[1][3] and q.d.get("part") for q in f.nodes):
            items = [q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == x[1][3] and q.d.get("part") == x[2]]
            for v in {f.desc(q.d["desc"], f.env_of(p)) for q in items for p in f.bynode[q.id]}:
                for n2, v2 in expand(f, n, v):
                    out.append((items, v2))
        elif x[0] == "agg" and x[1] == "array":
            for _, v in x[3]:
                out.append(([], v))
        elif is_vec_literal(x):
            lit = vec_literal(f, x)
            for v in {v for _, v in lit}:
                ns = {}
                for p, w in lit:
                    if w == v:
                        ns[f.pnodes[p][0]] = f.nodes[f.pnodes[p][0]]
                for n2, v2 in expand(f, n, v):
                    out.append((list(ns.values()), v2))
            out += pushed(f, x)
        elif x[0] == "call" and x[1] in ("from_elem", "into_vec") and x[2]:
            out += elem_sites(f, n, x[2][0])
        else:
            out.append(([], f._item(x)))
    return out

# ---------------------------------------------------------------- rule rows
class Row:
    """One kind of event that is allowed, and the conditions on it.
    args: patterns of the arguments (None: anything; a callable gets (ev, term)).
    never: [(text, [assumptions])]  the event is unreachable under them.
    always: [(text, [assumptions])] every completed call under them has the event.
    forall: [(text, collection, [assumptions])] no event if an element is so.
    foreach: [(text, collection, [assumptions])] each such element has the event."""
    def __init__(self, name, args=None, kind=None, never=(), always=(), forall=(), foreach=(), min=1, once=False, where=None, target=None):
        self.name, self.args, self.kind, self.never, self.always, self.forall, self.foreach, self.min, self.once = name, args, kind, never, always, forall, foreach, min, once
        self.where, self.target = where, target
    def matches(self, e):
        if self.kind is not None and e.kind not in (self.kind if isinstance(self.kind, tuple) else (self.kind,)):
            return False
        if self.target is not None and not m(self.target, e.target):
            return False
        if self.where is not None and not self.where(e):
            return False
        if self.args is None:
            return True
        if len(e.args) < len(self.args):
            return False
        for a, t in zip(self.args, e.args):
            if a is None:
                continue
            if callable(a):
                if not a(e, t):
                    return False
            elif not m(a, cv(t)):
                return False
        return True

def table(ctx, rule, f, events, rows, what, exhaustive=True, starts=None):
    """Checks the events against the rows."""
    per = {id(r): [] for r in rows}
    badseen = set()
    for e in events:
        rs = [r for r in rows if r.matches(e)]
        for r in rs:
            per[id(r)].append(e)
        if not rs and exhaustive:
            k = (e.n.id, e.text())
            if k not in badseen:
                badseen.add(k)
                ctx.bad(rule, f.where(e.n), f"{what}: no rule allows {e.text()}", key=f"{rule}:unexpected:{e.target}")
    for r in rows:
        es = per[id(r)]
        if len(es) < r.min:
            ctx.bad(rule, f"{f.entry_body.name}", f"{what}: {r.name}: not found", key=f"{rule}:{r.name}:missing")
            continue
        ps = [e.p for e in es]
        nodes = {}
        for e in es:
            nodes.setdefault(e.n.id, e.n)
        loc = ", ".join(sorted({f.where(n) for n in nodes.values()}))[:400]
        if not r.never and not r.always and not r.forall and not r.foreach:
            ctx.ok(rule, f"{what}: {r.name} @ {loc}")
        for text, ass in r.never:
            hit = live_from(f, starts, ass)
            off = [p for p in ps if p in hit]
            if off:
                live_from(f, starts, ass)
                ctx.bad(rule, showp(f, off[0]), f"{what}: {r.name}: reached although {text}", key=f"{rule}:{r.name}:never:{text}", path=f.path(off[0]))
            else:
                ctx.ok(rule, f"{what}: {r.name}: not when {text} @ {loc}")
        for text, ass in r.always:
            off = None
            rr = live_from(f, starts, ass, avoid=set(ps))
            off = [p for p in f.ends() if p in rr]
            if off:
                ctx.bad(rule, f"{f.entry_body.file} in {f.entry_body.name}", f"{what}: {r.name}: does not happen although {text}", key=f"{rule}:{r.name}:always:{text}", path=f.path(off[0]))
            elif not any(p in live_from(f, starts, ass) for p in ps):
                ctx.bad(rule, f"{f.entry_body.file} in {f.entry_body.name}", f"{what}: {r.name}: never happens when {text}", key=f"{rule}:{r.name}:always:{text}")
            elif not ends_reached(f, starts, ass):
                ctx.bad(rule, f"{f.entry_body.file} in {f.entry_body.name}", f"{what}: {r.name}: the call never completes when {text}", key=f"{rule}:{r.name}:always:{text}:ends")
            else:
                ctx.ok(rule, f"{what}: {r.name}: always when {text}")
        for text, coll, ass in r.forall:
            okk, off = forall_states(f, ps, coll, ass, starts)
            if okk:
                ctx.ok(rule, f"{what}: {r.name}: not when {text}")
            else:
                ctx.bad(rule, loc, f"{what}: {r.name}: reached although {text}", key=f"{rule}:{r.name}:forall:{text}")
        for text, coll, ass, *base in r.foreach:
            okk, why = foreach_states(f, ps, coll, ass, base=base[0] if base else ())
            if okk:
                ctx.ok(rule, f"{what}: {r.name}: {text}")
            else:
                ctx.bad(rule, loc, f"{what}: {r.name}: not {text}: {why}", key=f"{rule}:{r.name}:foreach:{text}")
    return per

def ends_reached(f, starts, ass):
    rr = live_from(f, starts, ass)
    return any(p in rr for p in f.ends()) or not f.ends()

def forall_states(f, ps, pat, bad, starts=None, base=()):
    hs = loops(f, pat)
    lv = live_from(f, starts, base)
    tg = [p for p in ps if p in lv]
    if not tg:
        return True, []
    worst = tg
    for h in hs:
        ok, no = loop_edges(f, h, pat)
        r = live_from(f, starts, base, extra=lambda x, y, fs: (x, y) in no)
        byp = [p for p in tg if p in r]
        if byp:
            worst = byp
            continue
        r2 = live_from(f, [t for _, t in ok], tuple(base) + tuple(bad))
        off = [p for p in tg if p in r2]
        if not off:
            return True, []
        worst = off
    return False, worst

def bulk(f, ps, but=()):
    """The states, and those of the loops that do nothing but put every element
    of a list somewhere: they stand for all its elements."""
    out = set(ps)
    for n in {f.pnodes[p][0] for p in out}:
        n = f.nodes[n]
        if n.kind != "call" or n.d["cal"] is None or n.d["cal"].m not in GROW or "into" in n.d:
            continue
        own = [p for p in out if f.pnodes[p][0] == n.id]
        xs = {f.argt(n, f.nargs(n) - 1, f.env_of(p)) for p in own}
        if len(xs) != 1:
            continue
        x = xs.pop()
        if x[0] != "pay" or x[1][0] != "next" or not x[1][1][0] in ("fld", "call", "pay"):
            continue
        for h in f.branches:
            hp = [p for p in f.bynode.get(h.id, ())]
            if h.id in {q.id for q in but} or not hp:
                continue
            st = [t for p in hp for t, fs in f.psucc[p] if any(k[0] == "var" and v == "ok" and k[1][0] == "next" and (k[1] == x[1] or over([cv(x[1][1])], k[1][1])) for k, v in fs)]
            if st:
                r = f.reach(st, avoid=set(own))
                if not (r & set(hp)) and not (r & set(f.ends())):
                    out |= set(hp)
    return out
def foreach_states(f, ps, pat, ass=(), heads=None, base=(), until=None):
    """Every iteration over the collection (under the assumptions) passes one
    of the states, for at least one loop over it, and the loop is not left
    before the collection is exhausted on the way to `until`."""
    hs = loops(f, pat) if heads is None else heads
    if not hs:
        return False, "there is no loop over " + str(pat)
    why = ""
    inner = bulk(f, ps, hs)
    for h in hs:
        ok, no = loop_edges(f, h, pat)
        pre = live_from(f, None, base)
        st = [t for x, t in ok if x in pre]
        hp = set(f.bynode[h.id])
        r = live_from(f, st, ass, avoid=inner)
        off = [p for p in r if p in hp] + [p for p in f.ends() if p in r]
        reach = live_from(f, st, ass)
        if off:
            live_from(f, st, ass, avoid=inner)
            why = "an iteration at " + f.where(h) + " skips it: " + " -> ".join(f.path(off[0])[:12])
        elif not any(p in reach for p in inner):
            why = why or "unreachable from the loop at " + f.where(h)
        else:
            # left early
            rr = live_from(f, st, base, extra=lambda x, y, fs: (x, y) in no)
            early = [p for p in (f.ends() if until is None else until) if p in rr]
            if early and f.path(early[0]):
                why = "the loop at " + f.where(h) + " may be left before all elements were visited: " + " -> ".join(f.path(early[0])[-12:])
                continue
            done = set(f.ends()) | hp
            if not any(p in done for p in live_from(f, [p for p in inner if p in reach], [a for a in ass if not (isinstance(a, V) and "next(" in repr(a.pat))], skip_start=True)):
                why = "an iteration at " + f.where(h) + " never completes"
                continue
            return True, ""
    if heads is None and _staged(f, inner, pat, ass, base, until):
        return True, ""
    return False, why
def _staged(f, ps, pat, ass, base, until, depth=2):
    """The states are in a loop over a list built here, each element of which
    has them, and each element of the collection is put into that list."""
    for h, l, items in local_loops(f):
        body = f.reach([t for p in f.bynode[h.id] for t, fs in f.psucc[p] if any(k[0] == "var" and is_next(k[1]) and v == "ok" for k, v in fs)], avoid=set(f.bynode[h.id]))
        if not (ps & body) or set(items) & ps:
            continue
        if shrinks_before(f, l, h) or not foreach_states(f, ps, "%", ass, heads=[h], base=base, until=until)[0]:
            continue
        q = items
        if depth and not (foreach_states(f, q, pat, ass, heads=loops(f, pat), base=base)[0] or _staged(f, set(q), pat, ass, base, None, depth - 1)):
            continue
        # what was put in is looked at
        if set(f.ends()) & live_from(f, q, (), avoid=set(f.bynode[h.id]), skip_start=True):
            continue
        return True
    return False
def local_loops(f):
    """Loops over lists built here: [(head, list, states that put an element in)]."""
    r = f.__dict__.get("_llmemo")
    if r is None:
        r, seen = [], set()
        for n in f.branches:
            for p in f.bynode.get(n.id, ()):
                for t, fs in f.psucc[p]:
                    for k, v in fs:
                        if k[0] != "var" or not is_next(k[1]) or (n.id, k[1]) in seen:
                            continue
                        seen.add((n.id, k[1]))
                        l = k[1][1] if k[1][0] == "next" else None
                        if l is None and k[1][3] is not None:
                            c = f.nodes[k[1][3]]
                            l = f.callterm(c)
                            if c.d["cal"].m != "collect" or any(q.d.get("part") for q in f.nodes if q.kind == "item" and q.d.get("for") == c.id):
                                continue
                        if l is not None and (is_local_coll(l) or l[0] == "call" and l[1] == "collect"):
                            q = [p for p, _ in item_states(f, l)]
                            if q:
                                r.append((n, l, q))
        f._llmemo = r
    return r

def elems(ctx, rule, f, n, coll, pats, what, source=None, assume=(), rows=None):
    """The elements of a collection value match the patterns; with a source,
    every element of the source contributes one."""
    sites = elem_sites(f, n, coll)
    ok = True
    used = set()
    pats = pats if isinstance(pats, list) else [pats]
    for nodes, v in sites:
        s = cv(v)
        hit = [i for i, p in enumerate(pats) if m(p, s)]
        used |= set(hit)
        if not hit:
            ok = False
            ctx.bad(rule, f.where(nodes[0]) if nodes else f.where(n), f"{what}: an element is {s[:300]}", key=f"{rule}:{what}:element")
    if len(used) < len(pats):
        ok = False
        ctx.bad(rule, f.where(n), f"{what}: no element like {[pats[i] for i in range(len(pats)) if i not in used]}; found {[cv(v)[:200] for _, v in sites]}", key=f"{rule}:{what}:elements")
    if source is not None and ok:
        ps = [p for nodes, _ in sites for q in nodes for p in f.bynode[q.id]]
        if ps:
            okk, why = foreach_states(f, ps, source, assume, until=f.bynode[n.id])
            if not okk:
                ok = False
                ctx.bad(rule, f.where(n), f"{what}: not every element is included: {why}", key=f"{rule}:{what}:coverage")
    for x in alts(coll):
        for q in shrinks_before(f, x, n):
            ok = False
            ctx.bad(rule, f.where(q), f"{what}: elements are removed again", key=f"{rule}:{what}:removed")
    if ok:
        ctx.ok(rule, f"{what} @ {f.where(n)}")
    return ok

def shrinks_before(f, coll, n):
    """Calls that remove elements of a locally built collection before n."""
    if not is_local_coll(coll) and not (coll[0] == "call" and coll[1] == "collect"):
        return []
    out = []
    tgt = set(f.bynode[n.id])
    for q in f.calls(m=SHRINK):
        if f.nargs(q) and q.id != n.id and any(coll in alts(f.argt(q, 0, f.env_of(p))) for p in f.bynode[q.id]):
            r = f.reach(f.bynode[q.id], skip_start=True)
            if tgt & r:
                out.append(q)
    return out

def grown(f, pat):
    """Items added to a place: the elements that extend() adds one by one, not
    the iterator."""
    out = []
    for e in place_events(f, pat, ("grow",)):
        items = [q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == e.n.id]
        if not items:
            out.append(e)
            continue
        for q in items:
            for p in f.bynode[q.id]:
                x = Ev(f, q, p, "grow", e.target, [f.desc(q.d["desc"], f.env_of(p))])
                if not any(y.n is q and y.p == p for y in out):
                    out.append(x)
    return out
def arrivals(f, pat):
    """What is put into a place, one event per element: a list built here that
    is moved there as a whole counts as the insertions into that list. The
    other events come as they are; whole moves are returned separately."""
    evs, moved = [], []
    for e in place_events(f, pat):
        ls = []
        if e.kind in ("grow", "write"):
            whole = e.kind == "write" or e.n.kind == "call" and e.n.d["cal"].m in ("append", "extend", "extend_from_slice")
            ls = [x for x in alts(e.args[-1]) if is_local_coll(x) or x[0] == "call" and x[1] == "collect" or x[0] == "fld" and x[1][0] == "call" and x[1][1] == "collect"] if whole and e.args else []
        if not ls or len(ls) < len(alts(e.args[-1])):
            evs.append(e)
            continue
        moved.append(e)
        for x in ls:
            for p, v in item_states(f, x):
                n = f.nodes[f.pnodes[p][0]]
                evs.append(Ev(f, n, p, "grow", e.target, [v]))
            for q in shrinks_before(f, x, e.n):
                evs.append(Ev(f, q, f.bynode[q.id][0], "shrink", e.target, []))
    # an element put into the list gets there
    lost = []
    for e in moved:
        for x in alts(e.args[-1]):
            st = [p for p, _ in item_states(f, x)]
            r = live_from(f, st, (), avoid={z.p for z in moved}, skip_start=True)
            lost += [p for p in f.ends() if p in r][:1]
    return evs, moved, lost
def panic_nodes(f):
    return [n for n in f.nodes if n.kind == "panic" and n.id in f.reached]
def no_panic(ctx, R, f, states, what):
    """None of the states is a panic."""
    off = [n for n in panic_nodes(f) if any(p in states for p in f.bynode[n.id])]
    ctx.check(not off, R, f.where(off[0]) if off else f.entry_body.name, f"{what}: panics", key=f"{R}:panic:{what}")
REORDER = SHRINK | {"dedup", "dedup_by", "dedup_by_key", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "swap", "rotate_left", "rotate_right", "split_at", "retain_mut", "extract_if", "rev", "skip", "skip_while", "take_while", "step_by", "filter", "filter_map", "fill", "shuffle"}
def altered(f, pat, ok=()):
    """Calls that drop or reorder elements of the values whose path matches."""
    out = []
    for n in f.calls(m=REORDER - set(ok)):
        if n.d["cal"].body is None and f.nargs(n):
            if n.d["cal"].m == "take" and f.nargs(n) == 1:
                continue
            if any(m(pat, cv(x)) for p in f.bynode[n.id] for x in alts(f.argt(n, 0, f.env_of(p)))):
                out.append(n)
    return out
def ctors_within(ctx, rule, adt, variant, flows, what):
    """A variant is constructed only in functions inlined in the given flows."""
    allowed = set()
    for f in flows:
        allowed |= f.inlined
    sites = [x for x in ctor_sites(ctx.prog, adt, variant) if not is_dead(ctx.prog, x[0])]
    ctx.need(sites, f"construction of {adt}::{variant}")
    for b, line in sites:
        if b.id in allowed:
            ctx.ok(rule, f"{what}: {adt}::{variant} built at {b.file} in {b.name}")
        else:
            ctx.bad(rule, f"{b.file}:{line} in {b.name}", f"{what}: {adt}::{variant} is built outside the analysed operation", key=f"{rule}:{variant}:{b.name}")

def collected(ctx, R, f, pairs, rows, what):
    """Collections of outgoing items: pairs [(product node, term)], rows
    [(name, pattern of the item, source collection or None, assumptions on its element)].
    Every item matches one row, and each element of a row's source yields one."""
    ev = {}
    for p, t in pairs:
        n = f.nodes[f.pnodes[p][0]]
        for x in alts(t):
            for nodes, v in elem_sites(f, n, x):
                for y in alts(v):
                    ev.setdefault(cv(y), set()).update(q.id for q in nodes)
            ctx.check(not shrinks_before(f, x, n), R, f.where(n), f"{what}: items are removed again", key=f"{R}:{what}:removed")
    ctx.need(ev, f"items of {what}")
    for s in sorted(ev):
        hit = [r for r in rows if m(r[1], s)]
        ctx.check(len(hit) >= 1, R, f.entry_body.name, f"{what}: unexpected item {s[:400]}", key=f"{R}:{what}:unexpected")
    for name, pat, X, ass in rows:
        es = sorted({i for s in ev for i in ev[s] if m(pat, s)})
        if not ctx.check(any(m(pat, s) for s in ev), R, f.entry_body.name, f"{what}: {name} is never among the items", key=f"{R}:{what}:{name}:missing"):
            continue
        if X is not None:
            okk, why = foreach_states(f, [p for i in es for p in f.bynode[i]], X, ass)
            ctx.check(okk, R, f.where(f.nodes[es[0]]) if es else f.entry_body.name, f"{what}: {name} is left out: {why}", key=f"{R}:{what}:{name}:dropped")

def item_states(f, coll):
    """States that add an item to a collection, with the item: [(state, term)]."""
    out = []
    def through(nodes, val, coll=None):
        for q in nodes:
            for p in f.bynode[q.id] if coll is None else into(f, q, coll):
                out.append((p, val(q, f.env_of(p))))
    for x in alts(coll):
        while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Some", "Ok") and len(x[3]) == 1):
            x = x[1] if x[0] == "pay" else x[3][0][1]
        if is_vec_literal(x):
            out += vec_literal(f, x)
        ids = [x[3]] if x[0] == "call" and x[1] == "collect" and len(x) > 4 else []
        if x[0] == "fld" and x[1][0] == "call" and x[1][1] == "collect" and len(x[1]) > 4:
            through([q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == x[1][3] and q.d.get("part") == x[2]], lambda q, env: f.desc(q.d["desc"], env))
        for pn in pushes(f, x):
            if any(q.kind == "item" and q.id in f.reached and q.d.get("for") == pn.id for q in f.nodes):
                ids.append(pn.id)
            else:
                through([pn], lambda q, env: f.argt(q, f.nargs(q) - 1, env) if q.d["cal"].m != "insert" or f.nargs(q) < 3 else ("agg", "tuple", "", (("0", f.argt(q, 1, env)), ("1", f.argt(q, 2, env)))), x)
        for i in ids:
            through([q for q in f.nodes if q.kind == "item" and q.id in f.reached and q.d.get("for") == i], lambda q, env: f.desc(q.d["desc"], env))
    return out
def iteration(f, pat, ass, heads=None):
    """States reached in one iteration over a collection under assumptions."""
    out = set()
    for h in loops(f, pat) if heads is None else heads:
        ok, no = loop_edges(f, h, pat)
        out |= live_from(f, [t for _, t in ok], ass, avoid=set(f.bynode[h.id]))
    return out
def aggfield(t, name):
    for x in alts(t):
        while x[0] == "pay" or (x[0] == "agg" and x[2] in ("Ok", "Some") and len(x[3]) == 1):
            x = x[1] if x[0] == "pay" else x[3][0][1]
        if x[0] == "agg" and name in dict(x[3]):
            yield dict(x[3])[name]

# ---------------------------------------------------------------- reads of memory
def place_reads(f, pat):
    """Nodes that read the memory at the matching place: [(node, operator of the
    read or None, text of the other operand)]."""
    out = []
    def ops(n):
        if n.kind == "assign":
            rv = n.d["rv"]
            if rv[0] in ("use", "cast"):
                for o in rv[1:]:
                    if isinstance(o, list):
                        yield None, o, None
            elif rv[0] == "bin":
                yield rv[1], rv[2], rv[3]
                yield rv[1], rv[3], rv[2]
            elif rv[0] == "agg":
                for o in rv[5]:
                    yield None, o, None
        elif n.kind == "call" and "xargs" not in n.d:
            for o in n.d.get("args") or []:
                yield None, o, None
        elif n.kind == "test" and n.d.get("desc") and n.d["desc"][0] == "op":
            yield None, n.d["desc"][2], None
    for n in f.nodes:
        if n.id not in f.reached:
            continue
        for op, o, other in ops(n):
            on = None
            if not o or o[0] not in ("c", "m") or len(o[1]) < 2:
                continue
            if any(x.startswith("^") and "self" not in x for x in o[1][1:]):
                continue        # a captured local
            if op is None and n.kind == "assign" and n.d["rv"][0] == "use" and len(n.d["place"]) == 1:
                # compared or added right after it was copied
                for q in f.nodes:
                    if q.kind == "assign" and q.inst is n.inst and q.d["rv"][0] == "bin":
                        a, b = q.d["rv"][2], q.d["rv"][3]
                        for x, y in ((a, b), (b, a)):
                            if x[0] in ("c", "m") and x[1] == n.d["place"]:
                                op, other = q.d["rv"][1], y
                                on = q
            for p in f.bynode[n.id]:
                env = f.env_of(p)
                if m(pat, cv(f.desc(("op", n.inst, o), env))):
                    out.append((n, op, "|".join(sorted({cv(f.desc(("op", n.inst, other), f.env_of(p2))) for p2 in f.bynode[(on or n).id]})) if other else None))
                    break
    return out
def stop_heads(f):
    return {p for n in f.branches if n.id in f.reached for p in f.bynode[n.id]
            if any(k[0] == "var" and is_next(k[1]) for t, fs in f.psucc[p] for k, v in fs)}
def sums_after(f, pat, ws, stop=()):
    """Nodes that compute place + 1 although the place has been increased."""
    r = f.reach(list(ws), avoid=set(stop), skip_start=True)
    return [n for n, op, other in place_reads(f, pat) if op and op.startswith("Add") and other == "1" and any(p in r for p in f.bynode[n.id])]
def counter(ctx, R, f, pat, what, users=None):
    """A counter handed out as an identity: what is handed out is read on one
    side of the increment only, so that two uses agree and are fresh."""
    w = place_events(f, pat, ("write",))
    ctx.need(w, f"increment of {what}")
    for e in w:
        ctx.check(m([f"(1 Add {pat})", f"wrapping_add({pat}, 1)", f"checked_add({pat}, 1)"], cv(e.args[-1])), R, f.where(e.n), f"{what} becomes {cv(e.args[-1])}", key=f"{R}:{what}:increment")
    r = f.reach([e.p for e in w], skip_start=True)
    ctx.check(not [e for e in w if e.p in r], R, f.where(w[0].n), f"{what} is incremented twice", key=f"{R}:{what}:twice")
    reads = [n for n, op, other in place_reads(f, pat) if not (op and op.startswith("Add") and other == "1")]
    after = [n for n in reads if any(p in r for p in f.bynode[n.id])]
    before = [n for n in reads if n not in after]
    ctx.check(not (after and before), R, f.where((after or before or [w[0].n])[0]), f"{what} is read before and after its increment: two different values", key=f"{R}:{what}:mixed")
    return w
