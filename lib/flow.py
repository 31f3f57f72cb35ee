"""Interprocedural dataflow over the type-checked MIR.

`Flow(prog, body, ...)` inlines every statically resolved local callee (and
closures handed to iterator / Option / Result combinators) into one control-flow
graph rooted at `body`, and propagates a finite abstract state along it:
which definition of a branch-relevant variable reaches a node, and which
branch outcomes (enum variant, boolean, comparison) are known. Values are
described by terms (access paths, calls, constructors). Nothing is executed:
the state space is the finite product of graph nodes and tracked facts, with
joins (dropping facts) above a cap.

Terms
  ("arg", i, name)        parameter of the entry function
  ("k", text)             literal / constant
  ("fld", base, name)     field (references, boxes, cells are transparent)
  ("pay", base)           payload of Some / Ok / Continue / Ready
  ("err", base)           payload of Err / Break
  ("agg", name, variant, ((field, term), ...))
  ("call", name, args, site)   site is None for pure accessors
  ("get", map, key)       lookup in a map or by index
  ("next", it) / pay of it: next element of an iteration
  ("bin", op, a, b) ("un", op, a)
  ("phi", frozenset)      one of several values
  ("cl", closure id, inst) closure value
"""
import re
from collections import deque
from mir import short, strip_wrappers

OKV = {"Some": "ok", "Ok": "ok", "Continue": "ok", "Ready": "ok", "None": "no", "Err": "no", "Break": "no", "Pending": "no",
       "Occupied": "ok", "Vacant": "no"}
OKTYPES = {"Option", "Result", "ControlFlow", "Poll", "Entry"}

TRANSPARENT = {
    "clone", "borrow", "borrow_mut", "deref", "deref_mut", "as_ref", "as_mut", "as_deref", "as_deref_mut", "into", "from",
    "to_owned", "to_vec", "iter", "iter_mut", "into_iter", "cloned", "copied", "as_slice", "as_str", "as_mut_slice", "as_bytes", "to_string",
    "into_boxed_slice", "into_vec", "by_ref", "lock", "inner", "into_inner", "get_mut_ref", "branch", "ok", "new_unchecked",
    "into_boxed", "try_from", "try_into", "drain", "get_ref", "from_iter", "fuse", "peekable", "rev", "into_string", "upgrade", "downgrade",
    "write", "read", "as_deref", "must_use", "black_box", "leak", "try_borrow", "try_borrow_mut", "as_mut_ref", "from_output", "as_any", "to_le_bytes", "into_future", "freeze", "copy_from_slice", "as_mut_any", "box_new", "into_values_vec", "chars", "from_vec", "as_inner", "into_sorted", "boxed",
}
# `new` is transparent only for these owners
NEW_WRAPPERS = {"Box", "Rc", "Arc", "RefCell", "Mutex", "Cell", "Pin", "RwLock", "ManuallyDrop", "Wrapping", "Reverse"}
PURE = {"len", "is_empty", "contains", "contains_key", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "first", "last", "get", "get_mut", "index",
        "index_mut", "is_some", "is_none", "is_ok", "is_err", "min", "max", "starts_with", "ends_with", "range", "values", "keys", "values_mut", "enumerate",
        "zip", "skip", "take_while", "filter", "map", "filter_map", "chain", "flat_map", "flatten", "step_by", "windows", "chunks", "saturating_sub", "saturating_add", "wrapping_add",
        "wrapping_sub", "checked_add", "checked_sub", "abs_diff", "get_or_default", "front", "back", "front_mut", "back_mut", "first_mut", "last_mut", "div_ceil",
        "leading_zeros", "pow", "count", "into_keys", "into_values", "first_key_value", "last_key_value", "is_finished", "as_usize", "as_u32", "as_u64", "encoded_len"}
LOOKUP = {"get", "get_mut", "index", "index_mut"}
PANICS = {"unwrap", "expect", "unwrap_err", "expect_err"}

def mk_fld(b, name):
    k = b[0]
    if k == "agg":
        for f, t in b[3]:
            if f == name:
                return t
        return ("undef",)
    if k == "phi":
        return mk_phi([mk_fld(x, name) for x in b[1]])
    if k == "bin" and b[1].endswith("WithOverflow"):
        return mk_bin(b[1][:-12], b[2], b[3]) if name == "0" else ("bin", b[1], b[2], b[3])
    if k == "undef":
        return b
    if k == "cell":                         # local aggregate changed through references
        return ("fld", b, name) if name in dict(b[3]) else mk_fld(b[2], name)
    if k == "upd":                          # base with overridden fields
        if name in dict(b[2]):
            return dict(b[2])[name]
        return mk_fld(b[1], name)
    return ("fld", b, name)

def range_over(t):
    """The collection whose indices 0..len(c) a range term runs over."""
    if t[0] == "agg" and t[1].split("::")[-1] == "Range" and len(t[3]) == 2:
        a, b = t[3][0][1], t[3][1][1]
        if a == ("k", "0") and b[0] == "call" and b[1] == "len" and b[2]:
            return b[2][0]
    return None
def is_index(i, c):
    return i[0] == "call" and i[1] == "index" and len(i[2]) == 1 and i[2][0] == c

def mk_bin(op, a, b):
    """Binary operation; operations on integer literals are folded."""
    if a[0] == "k" and b[0] == "k" and re.match(r"^-?\d+$", a[1]) and re.match(r"^-?\d+$", b[1]):
        x, y = int(a[1]), int(b[1])
        v = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitOr": x | y, "BitAnd": x & y, "Shl": x << y if 0 <= y < 64 else None}.get(op.replace("Unchecked", ""))
        if v is not None:
            return ("k", str(v))
    return ("bin", op, a, b)

def mk_phi(ts):
    out = set()
    for t in ts:
        if t[0] == "phi":
            out |= t[1]
        elif t[0] != "undef":
            out.add(t)
    if not out:
        return ("undef",)
    if len(out) == 1:
        return next(iter(out))
    if len(out) > 12:
        out = set(sorted(out, key=repr)[:12]) | {("more",)}
    return ("phi", frozenset(out))

def alignment(t):
    """How an iteration departs from the order of its collection."""
    out = ()
    while t[0] == "call" and t[2]:
        if len(t[2]) == 2 and t[1] in ("skip", "filter", "skip_while", "step_by"):
            out = ((t[1], t[2][1] if t[1] in ("skip", "step_by") else None),) + out
        elif t[1] == "rev" and len(t[2]) == 1:
            out = ("rev",) + out
        elif t[1] not in ("enumerate", "values", "values_mut", "keys", "into_values", "into_keys", "peekable", "by_ref", "take", "take_while"):
            break
        t = t[2][0]
    return out

NEWS = {"new", "with_capacity", "default:Vec", "default:HashMap", "default:BTreeMap", "default:VecDeque", "default:HashSet", "default:BTreeSet", "default:String"}
FWD_GROW = {"push", "insert", "push_back"}
def is_new(t):
    return t[0] == "call" and t[1] in NEWS

def partial_iter(t):
    """An iteration that need not see every element of its collection."""
    while t[0] == "call" and t[2]:
        if len(t[2]) == 2 and t[1] in ("skip", "take", "filter", "take_while", "skip_while", "step_by"):
            return True
        if t[1] == "zip":
            return any(partial_iter(x) for x in t[2])
        if t[1] not in ("enumerate", "rev", "values", "values_mut", "keys", "into_values", "into_keys", "peekable", "by_ref", "collect"):
            return False
        t = t[2][0]
    return False

CHECKED = {"checked_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul"}
def mk_payload(b, variant, field, okt=True):
    k = b[0]
    if k == "phi":
        return mk_phi([mk_payload(x, variant, field, okt) for x in b[1]])
    if k == "call" and b[1] in CHECKED and len(b[2]) == 3 and okt and OKV.get(variant) == "ok":
        return mk_bin(CHECKED[b[1]], b[2][0], b[2][1])
    if k == "call" and b[1] in ("nextof", "nextpart") and okt and OKV.get(variant) == "ok":
        return b[2][0]
    if k == "agg":
        if b[2] == variant or (okt and OKV.get(b[2]) == OKV.get(variant) and variant in OKV and b[2] in OKV):
            for f, t in b[3]:
                if f == field:
                    return t
            if b[3] and field == "0":
                return b[3][0][1]
            return ("undef",)
        return ("undef",)
    if k == "undef":
        return b
    if k == "fld" and b[1][0] == "cell":
        # one of the values the field is given
        vs = [mk_fld(b[1][2], b[2])] + list(dict(b[1][3]).get(b[2], ()))
        vs = [y for x in vs for y in alts(x)]
        if all(x[0] == "agg" for x in vs):
            r = mk_phi([mk_payload(x, variant, field, okt) for x in vs])
            if r[0] != "undef":
                return r
    if variant in OKV and okt:
        if OKV[variant] == "ok":
            return ("pay", b)
        return ("err", b)
    return ("fld", b, f"{variant}.{field}")

def uncell(t):
    k = t[0]
    if k == "cell":
        return uncell(t[2])
    if k == "agg":
        return ("agg", t[1], t[2], tuple((f, uncell(x)) for f, x in t[3]))
    if k == "phi":
        return mk_phi([uncell(x) for x in t[1]])
    if k == "fld":
        return mk_fld(uncell(t[1]), t[2])
    if k == "pay":
        return mk_payload(uncell(t[1]), "Ok", "0")
    return t
def alts(t):
    return list(t[1]) if t[0] == "phi" else [t]

def has_term(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has_term(y, x) for y in t if isinstance(y, tuple))
def replace_term(t, x, y):
    if t == x:
        return y
    return tuple(replace_term(z, x, y) if isinstance(z, tuple) else z for z in t) if isinstance(t, tuple) else t
def subterms(t, depth=0):
    yield t
    if depth > 30:
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in KINDS:
                yield from subterms(x, depth + 1)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and y[0] in KINDS:
                            yield from subterms(y, depth + 1)
                        elif len(y) == 2 and isinstance(y[1], tuple):
                            yield from subterms(y[1], depth + 1)
        elif isinstance(x, frozenset):
            for y in x:
                yield from subterms(y, depth + 1)

KINDS = {"arg", "k", "fld", "pay", "err", "agg", "call", "get", "next", "bin", "un", "phi", "cl", "undef", "rec", "upd", "deep", "fn", "var", "more", "static", "cell"}

_short_cache = {}
def strip(t):
    """Drops payload / element markers, for provenance matching."""
    r = _short_cache.get(t)
    if r is not None:
        return r
    k = t[0]
    if k in ("pay",):
        r = strip(t[1])
    elif k == "fld":
        r = ("fld", strip(t[1]), t[2])
    elif k == "phi":
        r = mk_phi([strip(x) for x in t[1]])
    elif k == "call":
        r = ("call", t[1], tuple(strip(x) for x in t[2]), t[3])
    elif k == "get":
        r = ("get", strip(t[1]), strip(t[2]))
    elif k == "next":
        r = ("next", strip(t[1]))
    elif k == "bin":
        r = ("bin", t[1], strip(t[2]), strip(t[3]))
    elif k == "un":
        r = ("un", t[1], strip(t[2]))
    elif k == "agg":
        if t[2] in ("Some", "Ok") and len(t[3]) == 1:
            r = strip(t[3][0][1])
        else:
            r = ("agg", t[1], t[2], tuple((f, strip(x)) for f, x in t[3]))
    else:
        r = t
    _short_cache[t] = r
    return r

def show(t, d=0):
    k = t[0]
    if d > 8:
        return "…"
    if k == "arg":
        return t[2] or f"arg{t[1]}"
    if k == "k":
        return str(t[1])
    if k == "fld":
        return f"{show(t[1], d+1)}.{t[2]}"
    if k in ("pay", "err"):
        return f"{show(t[1], d+1)}{'?' if k == 'pay' else '.err'}"
    if k == "agg":
        return f"{short(t[1])}{'::' + t[2] if t[2] else ''}{{{', '.join(f + ': ' + show(x, d+1) for f, x in t[3])}}}"
    if k == "call":
        return f"{t[1]}({', '.join(show(x, d+1) for x in t[2])})" + (f"#{t[3]}" if t[3] is not None else "")
    if k == "get":
        return f"{show(t[1], d+1)}[{show(t[2], d+1)}]"
    if k == "next":
        return f"next({show(t[1], d+1)})"
    if k == "bin":
        return f"({show(t[2], d+1)} {t[1]} {show(t[3], d+1)})"
    if k == "un":
        return f"{t[1]}({show(t[2], d+1)})"
    if k == "phi":
        return "{" + " | ".join(sorted(show(x, d+1) for x in t[1])) + "}"
    if k == "cell":
        return "@" + show(t[2], d)
    if k == "upd":
        return f"{show(t[1], d+1)}+{{{', '.join(f + ': ' + show(x, d+1) for f, x in t[2])}}}"
    return str(t[:2])

class Inst:
    __slots__ = ("id", "body", "parent", "site", "args", "defs", "partial", "stack", "closure_env", "entry", "exit", "retnodes", "genv")
    def __init__(self, id, body, parent, site, args, stack):
        self.id, self.body, self.parent, self.site, self.args, self.stack = id, body, parent, site, args, stack
        self.defs = {}        # local -> [(node, desc)]
        self.partial = {}     # local -> [(path, node, desc)]
        self.retnodes = []

class Node:
    __slots__ = ("id", "kind", "inst", "line", "d", "succ", "kills", "dst")
    def __init__(self, id, kind, inst, line, d):
        self.id, self.kind, self.inst, self.line, self.d = id, kind, inst, line, d
        self.succ = []        # [(node id, edge label or None)]
        self.kills = None
        self.dst = None       # (inst, local) defined wholly here

class Callee:
    """What a call resolves to."""
    __slots__ = ("m", "tr", "st", "p", "ga", "body", "raw", "dyn", "name")
    def __init__(self, raw, body):
        self.raw = raw
        self.p = raw["p"]
        self.m = raw.get("m") or raw["p"].split("::")[-1]
        self.m = re.sub(r"<.*", "", self.m) or raw["p"].split("::")[-1]
        self.tr = short(raw["tr"]) if "tr" in raw else None
        self.st = raw.get("st", "")
        self.ga = raw.get("ga", [])
        self.body = body
        self.dyn = "dyn" in raw
        o = self.tr or (short(self.st) if self.st else "")
        self.name = (o + "::" if o else "") + self.m

import os
EXTALL = True
COLLS = {"Vec", "VecDeque", "BTreeSet", "HashSet", "BTreeMap", "HashMap"}
def _adder(c, st):
    """The insertion of one element that extend() consists of."""
    c2 = Callee(c.raw, c.body)
    c2.m = "push" if st == "Vec" else "push_back" if st in ("VecDeque", "LinkedList") else "insert"
    c2.name = (short(c.st) + "::" if c.st else "") + c2.m
    c2.tr = None
    return c2
class Flow:
    MAXDEPTH = 24
    def __init__(self, prog, body, boundary=(), inline_traits=(), noinline=(), maxnodes=60000, closures=True, local=False, argterms=None, env_cap=256, track=True):
        """boundary: trait short names never inlined even if resolved.
        inline_traits: traits whose unresolved calls are resolved by class hierarchy.
        noinline: method/function names to keep opaque.
        local: no inlining at all (the body by itself)."""
        self.prog, self.boundary, self.inline_traits = prog, set(boundary), set(inline_traits)
        self.noinline = set(noinline)
        self.local = local
        self.nodes = []
        self.insts = []
        self.maxnodes = maxnodes
        self.env_cap = env_cap
        self.inlined = set()
        self.opaque_local = set()
        self.flags = {}
        self._tmemo = {}
        self._fwds, self._alias = [], {}
        self._pmemo = None
        self._rmemo = {}
        self._cmemo = {}
        self.panics = []
        self.entry_body = body
        args = []
        for i in range(1, body.argc + 1):
            args.append(("t", argterms[i] if argterms and i in argterms else ("arg", i, body.vars.get(i, f"arg{i}"))))
        self.root = self._inst(body, None, None, args, ())
        self.end = self._node("end", self.root, body.end, None)
        ent, ex = self._build(self.root)
        self.entry = ent
        self._edge(ex, self.end)
        self.cells = {}
        self._finish(track)

    # ---------------------------------------------------------------- building
    def _inst(self, body, parent, site, args, stack):
        i = Inst(len(self.insts), body, parent, site, args, stack)
        self.insts.append(i)
        self.inlined.add(body.id)
        return i
    def _node(self, kind, inst, line, d):
        if len(self.nodes) > self.maxnodes:
            raise RuntimeError(f"inlined graph of {self.entry_body.name} too large")
        n = Node(len(self.nodes), kind, inst, line, d)
        self.nodes.append(n)
        return n
    def _edge(self, a, b, label=None):
        a.succ.append((b.id, label))
    def _def(self, node, inst, place, desc):
        """Records the definition of a place."""
        inst, place = self._canon_place(inst, place)
        if inst is None:
            node.d = dict(node.d or {}, w=place)
            return
        if len(place) == 1:
            inst.defs.setdefault(place[0], []).append((node.id, desc))
            node.dst = (inst, place[0])
        else:
            inst.partial.setdefault(place[0], []).append((tuple(place[1:]), node.id, desc))
    def _canon_place(self, inst, place):
        return inst, place

    def _build(self, inst):
        """Builds the nodes of an instance; returns (entry node, exit node)."""
        b = inst.body
        heads = {}
        for i, bb in enumerate(b.bb):
            if bb is not None:
                heads[i] = self._node("bb", inst, b.line, {"bb": i})
        exit_ = self._node("exit", inst, b.end, None)
        for i, bb in enumerate(b.bb):
            if bb is None:
                continue
            cur = heads[i]
            for s in bb[0]:
                if s[0] == "setdisc":
                    continue
                acc = self._accumulate(inst, s)
                if acc is not None:
                    keep, put, val = acc
                    tb = self._node("test", inst, s[2], {"desc": ("op", inst, val), "bool": 1})
                    self._edge(cur, tb)
                    d = ("t", ("k", "true" if put else "false"))
                    n = self._node("bind", inst, s[2], {"desc": d, "dest": s[0]})
                    self._def(n, inst, s[0], d)
                    j = self._node("hub", inst, s[2], None)
                    tb.succ += [(n.id, ("b", put)), (j.id, ("b", keep))]
                    self._edge(n, j)
                    cur = j
                    continue
                n = self._node("assign", inst, s[2], {"place": s[0], "rv": s[1]})
                self._def(n, inst, s[0], ("rv", inst, s[1]))
                self._edge(cur, n)
                cur = n
                if (s[1][0] in ("bin", "un") or s[1][0] == "use" and s[1][1][0] in ("c", "m")) and self._flag(b, s[0]):
                    j = self._node("hub", inst, s[2], None)
                    tb = self._fix_flag(inst, s[0], s[2], j)
                    self._edge(cur, tb)
                    cur = j
            t = bb[1]
            k = t[0]
            if k in ("goto", "drop", "yield"):
                tgt = heads.get(t[1])
                if k == "drop":
                    n = self._node("drop", inst, b.line, {"place": t[2]})
                    self._edge(cur, n); cur = n
                if tgt:
                    self._edge(cur, tgt)
            elif k == "ret":
                self._edge(cur, exit_)
            elif k == "switch":
                n = self._node("switch", inst, t[4], {"op": t[1], "vals": t[2], "other": t[3], "ty": t[5]})
                self._edge(cur, n)
                for v, tb in t[2]:
                    if tb in heads:
                        n.succ.append((heads[tb].id, ("sw", v)))
                if t[3] in heads:
                    n.succ.append((heads[t[3]].id, ("sw", None)))
            elif k == "assert":
                n = self._node("assert", inst, t[5], {"op": t[1], "exp": t[2], "k": t[3]})
                self._edge(cur, n)
                self._edge(n, heads[t[4]])
            elif k == "call":
                after = heads.get(t[4]) if t[4] is not None else None
                if after and self._flag(b, t[3]):
                    after = self._fix_flag(inst, t[3], t[5], after)
                self._call(inst, cur, t, after)
            else:
                n = self._node("unreachable", inst, b.line, None)
                self._edge(cur, n)
        return heads[0], exit_

    def _flag(self, b, pl):
        """A boolean variable that is assigned at several places."""
        if len(pl) != 1 or b.locals[pl[0]] != "bool":
            return False
        fl = self.flags.get(b.id)
        if fl is None:
            cnt = {}
            for bb in b.bb:
                if bb is None:
                    continue
                for s in bb[0]:
                    if s[0] != "setdisc" and len(s[0]) == 1:
                        cnt[s[0][0]] = cnt.get(s[0][0], 0) + 1
                if bb[1][0] == "call" and len(bb[1][3]) == 1:
                    cnt[bb[1][3][0]] = cnt.get(bb[1][3][0], 0) + 1
            fl = self.flags[b.id] = {l for l, c in cnt.items() if c > 1}
        return pl[0] in fl
    def _fix_flag(self, inst, pl, line, after):
        """Branches on the value just assigned, so that it is a constant
        from there on (the operands may change before it is read)."""
        tb = self._node("test", inst, line, {"desc": ("op", inst, ["c", pl]), "bool": 1})
        for v in (True, False):
            d = ("t", ("k", "true" if v else "false"))
            n = self._node("bind", inst, line, {"desc": d, "dest": pl})
            self._def(n, inst, pl, d)
            tb.succ.append((n.id, ("b", v)))
            self._edge(n, after)
        return tb

    def _accumulate(self, inst, s):
        """`x |= y` and `x &= y` on a boolean local branch on y: (value that
        keeps x, value that decides x, operand y)."""
        pl, rv = s[0], s[1]
        if len(pl) != 1 or rv[0] != "bin" or rv[1] not in ("BitOr", "BitAnd") or inst.body.locals[pl[0]] != "bool":
            return None
        a, b = rv[2], rv[3]
        if a[0] in ("c", "m") and a[1] == pl:
            y = b
        elif b[0] in ("c", "m") and b[1] == pl:
            y = a
        else:
            return None
        return (False, True, y) if rv[1] == "BitOr" else (True, False, y)

    def _resolve(self, cal):
        """Local bodies a callee may run: list of bodies (empty: external)."""
        p = self.prog.bodies
        rid = cal.get("r", cal["id"])
        if "dyn" in cal:
            rid = None
        b = p.get(rid) if rid else None
        tr = short(cal["tr"]) if "tr" in cal else None
        if tr in self.boundary:
            return []
        if b is not None and b.deftr and "r" not in cal and tr in self.inline_traits:
            b2 = self.prog.impls_of(tr, cal["m"])
            b2 = [x for x in b2]
            return b2 or [b]
        if b is not None:
            if b.deftr and tr and "r" not in cal and cal["id"] == rid:
                return [b] if tr in self.inline_traits else []
            return [b]
        if tr and tr in self.inline_traits:
            return self.prog.impls_of(tr, cal["m"])
        return []

    def _can_inline(self, inst, b):
        if self.local:
            return False
        if b.derived:
            return False
        if b.id in inst.stack or b.id == inst.body.id:
            return False
        if len(inst.stack) >= self.MAXDEPTH:
            return False
        if b.m in self.noinline or b.path.split("::")[-1] in self.noinline or b.name in self.noinline:
            return False
        if b.tr and short(b.tr) in ("Debug", "Display"):
            return False
        return True

    def _call(self, inst, cur, t, after):
        _, f, args, dest, _, line, macs = t
        if f[0] != "fn":
            # call through a closure value / fn pointer
            n = self._node("call", inst, line, {"cal": None, "args": args, "op": f, "macs": macs, "dest": dest})
            self._def(n, inst, dest, ("callres", inst, n.id))
            self._edge(cur, n)
            if after:
                self._edge(n, after)
            return
        cal = f[1]
        c = Callee(cal, None)
        # direct call of a closure value: Fn*::call*(closure, (args))
        if c.tr in ("Fn", "FnMut", "FnOnce") and not self.local:
            cl = self._static_closure(inst, args[0])
            if cl:
                self._enter_closure(inst, cur, cl, [("tup", inst, args[1], i) for i in range(cl[0].argc - 1)], line, dest, after, macs)
                return
        bodies = self._resolve(cal)
        inl = [b for b in bodies if self._can_inline(inst, b)]
        if bodies and len(inl) == len(bodies):
            pre = self._node("enter", inst, line, {"cal": c, "args": args, "bodies": [b.id for b in bodies], "macs": macs})
            self._edge(cur, pre)
            rets = []
            for b in bodies:
                sub = self._inst(b, inst, pre.id, [("op", inst, a) for a in args], inst.stack + (inst.body.id,))
                if b.kind == "Closure":
                    sub.args = [("op", inst, a) for a in args]
                e, x = self._build(sub)
                self._edge(pre, e)
                post = self._node("ret", inst, line, {"sub": sub, "dest": dest, "pre": pre.id})
                self._def(post, inst, dest, ("ret", sub))
                self._edge(x, post)
                if after:
                    self._edge(post, after)
            return
        if bodies:
            for b in bodies:
                self.opaque_local.add(b.id)
        # external call (or boundary): closures among the arguments run here
        comb = None if self.local else self._combinator(inst, cur, c, args, dest, line, after, macs)
        if comb:
            return
        n = self._node("call", inst, line, {"cal": c, "args": args, "macs": macs, "dest": dest})
        cls = [] if self.local else [(i, self._static_closure(inst, a)) for i, a in enumerate(args)]
        cls = [(i, x) for i, x in cls if x]
        lazy = c.tr == "Iterator" and c.m in LAZY
        if cls and not lazy:
            hub = self._node("hub", inst, line, None)
            self._edge(cur, hub)
            for i, cl in cls:
                prm = [("clarg", inst, n.id, args, i, j) for j in range(cl[0].argc - 1)]
                r = self._closure_inst(inst, cl, prm, n.id)
                if r is None:
                    continue
                e, x, sub = r
                self._edge(hub, e)
                self._edge(x, hub)
                n.d.setdefault("cls", []).append(sub)
            cur = hub
        self._def(n, inst, dest, ("callres", inst, n.id))
        self._edge(cur, n)
        if after:
            self._edge(n, after)

    # closures ---------------------------------------------------------------
    def _static_closure(self, inst, op, depth=0):
        """(closure body, creating inst, agg rvalue) when an operand is known to
        be one specific closure, or a local function item."""
        if depth > 12:
            return None
        if op[0] == "fn":
            b = self.prog.bodies.get(op[1].get("r", op[1]["id"]))
            return (b, None, None) if b else None
        if op[0] == "k":
            return None
        pl = op[1]
        if len(pl) > 1 and any(isinstance(x, str) and x.startswith("^") for x in pl[1:]):
            # captured closure
            if pl[0] == 1 and inst.closure_env_ok():
                return None
        return self._closure_of_local(inst, pl, depth)
    def _closure_of_local(self, inst, pl, depth):
        l = pl[0]
        b = inst.body
        if len(pl) > 1 and not all(x == "*" for x in pl[1:]):
            return None
        if 1 <= l <= b.argc:
            if l - 1 < len(inst.args):
                a = inst.args[l - 1]
                if a[0] == "op":
                    return self._static_closure(a[1], a[2], depth + 1)
            return None
        rvs = []
        for bb in b.bb:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "setdisc" and s[0] == [l]:
                    rvs.append(s[1])
            t = bb[1]
            if t[0] == "call" and t[3] == [l]:
                rvs.append(("call", t))
        if len(rvs) != 1:
            return None
        r = rvs[0]
        if r[0] == "agg" and r[1] == "closure":
            cb = self.prog.bodies.get(r[2])
            return (cb, inst, r) if cb else None
        if r[0] == "use":
            return self._static_closure(inst, r[1], depth + 1)
        if r[0] == "ref":
            return self._closure_of_local(inst, r[2], depth + 1)
        if r[0] == "cast":
            return self._static_closure(inst, r[2], depth + 1)
        if r[0] == "call":
            f = r[1][1]
            if f[0] == "fn" and (f[1].get("m") or "") in ("new", "clone", "into", "from", "by_ref") and r[1][2]:
                return self._static_closure(inst, r[1][2][0], depth + 1)
        return None
    def _closure_inst(self, inst, cl, params, site):
        b, ci, rv = cl
        if b.id in inst.stack or b.id == inst.body.id or len(inst.stack) >= self.MAXDEPTH:
            return None
        if b.kind == "Closure":
            args = [("clenv", ci, rv)] + params
        else:
            args = params + [("t", ("undef",))] * max(0, b.argc - len(params))
            args = args[:b.argc]
        sub = self._inst(b, inst, site, args, inst.stack + (inst.body.id,))
        e, x = self._build(sub)
        return e, x, sub
    def _enter_closure(self, inst, cur, cl, params, line, dest, after, macs):
        pre = self._node("enter", inst, line, {"cal": None, "args": [], "bodies": [cl[0].id], "macs": macs})
        self._edge(cur, pre)
        r = self._closure_inst(inst, cl, params, pre.id)
        if r is None:
            n = self._node("call", inst, line, {"cal": None, "args": [], "op": None, "macs": macs, "dest": dest})
            self._def(n, inst, dest, ("callres", inst, n.id))
            self._edge(pre, n)
            if after:
                self._edge(n, after)
            return
        e, x, sub = r
        self._edge(pre, e)
        post = self._node("ret", inst, line, {"sub": sub, "dest": dest, "pre": pre.id})
        self._def(post, inst, dest, ("ret", sub))
        self._edge(x, post)
        if after:
            self._edge(post, after)

    # combinators --------------------------------------------------------------
    def _combinator(self, inst, cur, c, args, dest, line, after, macs):
        m, st = c.m, short(c.st) if c.st else ""
        if st in ("Option", "Result") and c.tr is None and m in OPT_COMB:
            return self._opt_comb(inst, cur, c, args, dest, line, after, macs, m)
        if st == "bool" and m in ("then", "then_some"):
            return self._bool_then(inst, cur, c, args, dest, line, after, macs, m)
        if c.tr == "Iterator" and m in CONSUMERS:
            return self._consume(inst, cur, c, args, dest, line, after, macs, m)
        if c.tr == "Iterator" and m == "next":
            pipe = self._pipeline(inst, args[0])
            if pipe and len(pipe) == 1 and self._fresh_iter(inst, args, dest):
                # the first element
                c2 = Callee(c.raw, c.body)
                c2.m, c2.tr, c2.name = "first", None, "first"
                n = self._node("call", inst, line, {"cal": c2, "args": [pipe[0][2]], "macs": macs, "dest": dest})
                self._def(n, inst, dest, ("callres", inst, n.id))
                self._edge(cur, n)
                if after:
                    self._edge(n, after)
                return True
            if pipe and any(s[0] != "base" for s in pipe):
                return self._pipe_next(inst, cur, c, args, dest, line, after, macs, pipe)
        if m in ("retain", "retain_mut") and c.tr is None and len(args) == 2:
            return self._retain(inst, cur, c, args, dest, line, after, macs, st)
        if m == "extend" and c.tr == "Extend" and args[1][0] in ("c", "m") and len(args[1][1]) == 1 and short(inst.body.locals[args[1][1][0]]) == "Option" and not inst.body.locals[args[1][1][0]].startswith("&"):
            return self._extend_option(inst, cur, c, args, dest, line, after, macs, st)
        if m == "or_insert_with" and c.tr is None and len(args) == 2 and self._static_closure(inst, args[1]):
            return self._or_insert_with(inst, cur, c, args, dest, line, after, macs)
        if m == "extend" and c.tr == "Extend":
            pipe = self._pipeline(inst, args[1]) or [("base", inst, args[1])]
            if st.endswith("Map") or any(s[0] != "base" for s in pipe) or EXTALL:
                return self._extend_each(inst, cur, c, args, dest, line, after, macs, st, pipe)
        if m in ("for_each", "retain", "extend", "collect", "from_iter") and c.tr in ("Extend", "FromIterator"):
            return self._consume(inst, cur, c, args, dest, line, after, macs, m)
        return False

    def _extend_option(self, inst, cur, c, args, dest, line, after, macs, st):
        """extend with an optional value: a branch and a single insertion."""
        tb = self._node("test", inst, line, {"desc": ("op", inst, args[1])})
        self._edge(cur, tb)
        c2 = Callee(c.raw, c.body)
        c2.m = "push" if st == "Vec" else "push_back" if st in ("VecDeque", "LinkedList") else "insert"
        c2.name = (short(c.st) + "::" if c.st else "") + c2.m
        c2.tr = None
        pay = ("payop", inst, args[1])
        new = [("fldd", pay, "0"), ("fldd", pay, "1")] if st.endswith("Map") else [pay]
        add = self._node("call", inst, line, {"cal": c2, "args": [], "xargs": [("op", inst, args[0])] + new, "macs": macs, "dest": None})
        no = self._node("bind", inst, line, {"desc": ("t", ("k", "()")), "dest": dest})
        self._def(no, inst, dest, no.d["desc"])
        tb.succ += [(add.id, ("ok", "ok")), (no.id, ("ok", "no"))]
        self._edge(add, no)
        if after:
            self._edge(no, after)
        return True

    def _fresh_iter(self, inst, args, dest):
        """A `next` on an iterator created right there by iter()."""
        b = inst.body
        ref, op = None, args[0]
        if op[0] not in ("c", "m") or len(op[1]) != 1:
            return False
        loc, made, nxt, uses = None, None, None, 0
        rvs = [s[1] for bb in b.bb if bb is not None for s in bb[0] if s[0] != "setdisc" and s[0] == op[1]]
        if len(rvs) != 1 or rvs[0][0] != "ref" or len(rvs[0][2]) != 1:
            return False
        loc = rvs[0][2]
        for i, bb in enumerate(b.bb):
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "setdisc" and (s[0][:1] == loc or s[1][0] == "ref" and s[1][2][:1] == loc or any(isinstance(o, list) and len(o) > 1 and isinstance(o[1], list) and o[1][:1] == loc for o in s[1][1:])):
                    uses += 1
            t = bb[1]
            if t[0] == "call":
                if t[3] == loc:
                    f = t[1]
                    if made is not None or f[0] != "fn" or Callee(f[1], None).m not in ("iter", "into_iter"):
                        return False
                    made = i
                if t[3] == dest and t[2] == args:
                    nxt = i
                uses += sum(1 for o in t[2] if o[0] in ("c", "m") and o[1][:1] == loc)
        if made is None or nxt is None or uses != 1:
            return False
        # not repeated without a new iterator
        seen, st = set(), [nxt]
        while st:
            t = b.bb[st.pop()]
            t = t[1] if t is not None else ("none",)
            out = [t[1]] if t[0] in ("goto", "drop", "yield") else [x for _, x in t[2]] + [t[3]] if t[0] == "switch" else [t[4]] if t[0] in ("assert", "call") else []
            for x in out:
                if x is not None and x != made and x not in seen and x < len(b.bb):
                    seen.add(x)
                    st.append(x)
        return nxt not in seen

    def _or_insert_with(self, inst, cur, c, args, dest, line, after, macs):
        """or_insert of what the closure returns; it only runs if needed."""
        tb = self._node("test", inst, line, {"desc": ("op", inst, args[0])})
        self._edge(cur, tb)
        x = self._node("bb", inst, line, None)
        y, r = self._run(inst, x, args[1], [], line)
        c2 = Callee(c.raw, c.body)
        c2.m = "or_insert"
        c2.name = (short(c.st) + "::" if c.st else "") + c2.m
        add = self._node("call", inst, line, {"cal": c2, "args": [], "xargs": [("op", inst, args[0]), r], "macs": macs, "dest": None})
        tb.succ += [(add.id, ("ok", "ok")), (x.id, ("ok", "no"))]
        self._edge(y, add)
        n = self._node("bind", inst, line, {"desc": ("payop", inst, args[0]), "dest": dest})
        self._def(n, inst, dest, n.d["desc"])
        self._edge(add, n)
        if after:
            self._edge(n, after)
        return True

    def _extend_each(self, inst, cur, c, args, dest, line, after, macs, st, pipe):
        """extend with the items of an iterator: a loop of insertions."""
        done, srcs = self._pipe_starts(inst, cur, pipe, line)
        if len(pipe) == 1:
            self._fwds.append((cur, srcs[0][0], done, inst, args[0], pipe[0][1], pipe[0][2], c, st))
        for head, x, item in srcs:
            c2 = _adder(c, st)
            new = [("fldd", item, "0"), ("fldd", item, "1")] if st.endswith("Map") else [item]
            add = self._node("call", inst, line, {"cal": c2, "args": [], "xargs": [("op", inst, args[0])] + new, "macs": macs, "dest": None})
            self._edge(x, add)
            self._edge(add, head)
        if dest is None:
            if after:
                self._edge(done, after)
            return True
        n = self._node("bind", inst, line, {"desc": ("t", ("k", "()")), "dest": dest})
        self._def(n, inst, dest, n.d["desc"])
        self._edge(done, n)
        if after:
            self._edge(n, after)
        return True

    def _retain(self, inst, cur, c, args, dest, line, after, macs, st):
        """A loop that removes the elements the closure rejects."""
        cl = self._static_closure(inst, args[1])
        if not cl:
            return False
        head, done, x, item = self._pipe_start(inst, cur, [("base", inst, args[0])], line)
        ismap = st in ("HashMap", "BTreeMap", "IndexMap")
        params = [("fldd", item, "0"), ("fldd", item, "1")] if ismap else [item]
        y, r = self._run(inst, x, args[1], params, line)
        tb = self._node("test", inst, line, {"desc": r, "bool": 1})
        self._edge(y, tb)
        c2 = Callee(c.raw, c.body)
        c2.m = "remove"; c2.name = (short(c.st) + "::" if c.st else "") + "remove"
        rm = self._node("call", inst, line, {"cal": c2, "args": [], "xargs": [("op", inst, args[0]), params[0]], "macs": macs, "dest": None})
        tb.succ += [(head.id, ("b", True)), (rm.id, ("b", False))]
        self._edge(rm, head)
        n = self._node("bind", inst, line, {"desc": ("t", ("k", "()")), "dest": dest})
        self._def(n, inst, dest, ("t", ("k", "()")))
        self._edge(done, n)
        if after:
            self._edge(n, after)
        return True
    def _run(self, inst, cur, clop, params, line):
        """Inlines the closure operand; returns (exit node, value descriptor)."""
        cl = self._static_closure(inst, clop)
        if cl:
            r = self._closure_inst(inst, cl, params, cur.id)
            if r:
                self._edge(cur, r[0])
                return r[1], ("ret", r[2])
        if clop[0] == "fn":
            c = Callee(clop[1], None)
            n = self._node("call", inst, line, {"cal": c, "args": [], "xargs": params, "macs": [], "dest": None})
            # functions used as values: Vec::len, Some, Into::into, enum constructors
            self._edge(cur, n)
            return n, ("fnval", inst, clop[1], params, n.id)
        n = self._node("call", inst, line, {"cal": None, "args": [clop], "xargs": params, "op": clop, "macs": [], "dest": None})
        self._edge(cur, n)
        return n, ("callres", inst, n.id)

    def _opt_comb(self, inst, cur, c, args, dest, line, after, macs, m):
        isres = short(c.st) == "Result"
        tt = "std::result::Result" if isres else "std::option::Option"
        OK, NO = ("Ok", "Err") if isres else ("Some", "None")
        recv = args[0]
        br = self._node("test", inst, line, {"desc": ("op", inst, recv), "cal": c, "args": args, "macs": macs})
        self._edge(cur, br)
        okn = self._node("bb", inst, line, None)
        non = self._node("bb", inst, line, None)
        br.succ.append((okn.id, ("ok", "ok")))
        br.succ.append((non.id, ("ok", "no")))
        pay, err, same = ("payop", inst, recv), ("errop", inst, recv), ("op", inst, recv)
        def bind(n0, desc):
            n = self._node("bind", inst, line, {"desc": desc, "dest": dest})
            self._def(n, inst, dest, desc)
            self._edge(n0, n)
            if after:
                self._edge(n, after)
        def mk(v, d, ty=None):
            return ("mkagg", ty or tt, v, d)
        if m == "map":
            x, r = self._run(inst, okn, args[1], [pay], line)
            bind(x, mk(OK, r)); bind(non, mk(NO, err if isres else None))
        elif m == "and_then":
            x, r = self._run(inst, okn, args[1], [pay], line)
            bind(x, r); bind(non, mk(NO, err if isres else None))
        elif m == "flatten":
            bind(okn, pay); bind(non, mk(NO, err if isres else None))
        elif m == "and":
            bind(okn, ("op", inst, args[1])); bind(non, mk(NO, err if isres else None))
        elif m in ("map_err",):
            bind(okn, mk(OK, pay))
            x, r = self._run(inst, non, args[1], [err], line)
            bind(x, mk(NO, r))
        elif m == "or_else":
            bind(okn, mk(OK, pay))
            x, r = self._run(inst, non, args[1], [err] if isres else [], line)
            bind(x, r)
        elif m == "or":
            bind(okn, mk(OK, pay)); bind(non, ("op", inst, args[1]))
        elif m == "unwrap_or":
            bind(okn, pay); bind(non, ("op", inst, args[1]))
        elif m == "unwrap_or_default":
            bind(okn, pay); bind(non, ("t", ("k", "default")))
        elif m == "unwrap_or_else":
            bind(okn, pay)
            x, r = self._run(inst, non, args[1], [err] if isres else [], line)
            bind(x, r)
        elif m in ("ok_or", "ok_or_else"):
            bind(okn, mk("Ok", pay, "std::result::Result"))
            if m == "ok_or":
                bind(non, mk("Err", ("op", inst, args[1]), "std::result::Result"))
            else:
                x, r = self._run(inst, non, args[1], [], line)
                bind(x, mk("Err", r, "std::result::Result"))
        elif m in ("is_some_and", "is_ok_and"):
            x, r = self._run(inst, okn, args[1], [pay], line)
            bind(x, r); bind(non, ("t", ("k", "false")))
        elif m == "is_none_or":
            x, r = self._run(inst, okn, args[1], [pay], line)
            bind(x, r); bind(non, ("t", ("k", "true")))
        elif m == "map_or":
            x, r = self._run(inst, okn, args[2], [pay], line)
            bind(x, r); bind(non, ("op", inst, args[1]))
        elif m == "map_or_else":
            x, r = self._run(inst, okn, args[2], [pay], line)
            bind(x, r)
            y, s = self._run(inst, non, args[1], [err] if isres else [], line)
            bind(y, s)
        elif m in ("inspect",):
            x, r = self._run(inst, okn, args[1], [pay], line)
            bind(x, same); bind(non, same)
        elif m in ("inspect_err",):
            x, r = self._run(inst, non, args[1], [err], line)
            bind(x, same); bind(okn, same)
        elif m == "filter":
            x, r = self._run(inst, okn, args[1], [pay], line)
            tb = self._node("test", inst, line, {"desc": r, "bool": 1})
            self._edge(x, tb)
            y = self._node("bb", inst, line, None); z = self._node("bb", inst, line, None)
            tb.succ += [(y.id, ("b", True)), (z.id, ("b", False))]
            bind(y, same); bind(z, mk("None", None)); bind(non, mk("None", None))
        elif m in PANICS:
            okside = m in ("unwrap", "expect")
            good, bad = (okn, non) if okside else (non, okn)
            p = self._node("panic", inst, line, {"k": m, "desc": same})
            self._edge(bad, p)
            bind(good, pay if okside else err)
        elif m in ("get_or_insert_with", "insert", "get_or_insert"):
            return False
        else:
            return False
        return True

    def _bool_then(self, inst, cur, c, args, dest, line, after, macs, m):
        tb = self._node("test", inst, line, {"desc": ("op", inst, args[0]), "bool": 1})
        self._edge(cur, tb)
        y = self._node("bb", inst, line, None); z = self._node("bb", inst, line, None)
        tb.succ += [(y.id, ("b", True)), (z.id, ("b", False))]
        if m == "then":
            x, r = self._run(inst, y, args[1], [], line)
        else:
            x, r = y, ("op", inst, args[1])
        for n0, d in ((x, ("mkagg", "std::option::Option", "Some", r)), (z, ("mkagg", "std::option::Option", "None", None))):
            n = self._node("bind", inst, line, {"desc": d, "dest": dest})
            self._def(n, inst, dest, d)
            self._edge(n0, n)
            if after:
                self._edge(n, after)
        return True

    # iterator pipelines -------------------------------------------------------
    def _pipeline(self, inst, op, depth=0):
        """Stages of a lazily built iterator, base first, when statically known:
        [("base", inst, operand), ("map", inst, closure operand), ...]"""
        if depth > 16 or op[0] in ("k", "fn"):
            return None
        pl = op[1]
        l = pl[0]
        if not all(x == "*" for x in pl[1:]):
            return [("base", inst, op)]
        b = inst.body
        if 1 <= l <= b.argc:
            if l - 1 < len(inst.args) and inst.args[l - 1][0] == "op":
                return self._pipeline(inst.args[l - 1][1], inst.args[l - 1][2], depth + 1)
            return [("base", inst, op)]
        rvs = []
        for bb in b.bb:
            if bb is None:
                continue
            for s in bb[0]:
                if s[0] != "setdisc" and s[0] == [l]:
                    rvs.append(s[1])
            t = bb[1]
            if t[0] == "call" and t[3] == [l]:
                rvs.append(("call", t))
        if len(rvs) != 1:
            return [("base", inst, op)]
        r = rvs[0]
        if r[0] == "use" and r[1][0] in ("c", "m"):
            return self._pipeline(inst, r[1], depth + 1)
        if r[0] == "ref":
            return self._pipeline(inst, ["c", r[2]], depth + 1)
        if r[0] == "call" and r[1][1][0] == "fn":
            c = Callee(r[1][1][1], None)
            a = r[1][2]
            if c.tr in ("IntoIterator",) and c.m == "into_iter":
                return self._pipeline(inst, a[0], depth + 1)
            if c.tr == "Iterator" and c.m in ("by_ref", "rev", "fuse", "peekable", "cloned", "copied"):
                p = self._pipeline(inst, a[0], depth + 1) or [("base", inst, a[0])]
                return p + [("rev", inst, None)] if c.m == "rev" else p
            if c.tr == "Iterator" and c.m in LAZY:
                p = self._pipeline(inst, a[0], depth + 1) or [("base", inst, a[0])]
                return p + [(c.m, inst, a[1] if len(a) > 1 else None)]
        return [("base", inst, op)]

    def _pipe_start(self, inst, cur, pipe, line):
        """Builds one `next` of a pipeline that consists of one source. Returns
        (loop head, exhausted node, item node, item descriptor)."""
        done, [(head, x, item)] = self._pipe_starts(inst, cur, pipe, line)
        return head, done, x, item

    def _pipe_starts(self, inst, cur, pipe, line):
        """Builds one `next` of a pipeline: (exhausted node, [(loop head, item
        node, item descriptor)]), one entry per chained source."""
        base = pipe[0]
        head = self._node("next", inst, line, {"base": ("op", base[1], base[2])})
        self._edge(cur, head)
        done = self._node("bb", inst, line, None)
        got = self._node("bb", inst, line, None)
        head.succ += [(got.id, ("ok", "ok")), (done.id, ("ok", "no"))]
        src = [(head, got, ("nextitem", ("op", base[1], base[2])))]
        for k, i, op in pipe[1:]:
            if k == "chain":
                done, more = self._pipe_starts(inst, done, self._pipeline(i, op) or [("base", i, op)], line)
                src = src + more
            else:
                src = [self._stage(inst, h, done, x, item, k, i, op, line, base) for h, x, item in src]
        return done, src

    def _stage(self, inst, head, done, cur, item, k, i, op, line, base):
        if k in ("rev", "filter", "skip_while", "filter_map", "flat_map", "flatten"):
            head.d["shift"] = head.d.get("shift", ()) + (k,)
        if k == "map":
            cur, item = self._run(i, cur, op, [item], line)
        elif k == "inspect":
            cur, _ = self._run(i, cur, op, [item], line)
        elif k == "filter":
            x, r = self._run(i, cur, op, [item], line)
            tb = self._node("test", inst, line, {"desc": r, "bool": 1})
            self._edge(x, tb)
            y = self._node("bb", inst, line, None)
            tb.succ += [(y.id, ("b", True)), (head.id, ("b", False))]
            cur = y
        elif k in ("take_while", "skip_while"):
            x, r = self._run(i, cur, op, [item], line)
            tb = self._node("test", inst, line, {"desc": r, "bool": 1})
            self._edge(x, tb)
            y = self._node("bb", inst, line, None)
            if k == "take_while":
                tb.succ += [(y.id, ("b", True)), (done.id, ("b", False))]
            else:
                tb.succ += [(y.id, ("b", True)), (head.id, ("b", True)), (y.id, ("b", False))]
            cur = y
        elif k in ("filter_map", "map_while"):
            x, r = self._run(i, cur, op, [item], line)
            tb = self._node("test", inst, line, {"desc": r})
            self._edge(x, tb)
            y = self._node("bb", inst, line, None)
            tb.succ += [(y.id, ("ok", "ok")), ((head if k == "filter_map" else done).id, ("ok", "no"))]
            cur, item = y, ("payd", r)
        elif k == "enumerate":
            item = ("mktuple", [("idx", ("op", base[1], base[2])), item])
        elif k == "zip":
            item = ("mktuple", [item, ("zipitem", ("op", i, op), ("op", base[1], base[2]), head.d.get("shift", ()))])
            head.d.setdefault("also", []).append(("op", i, op))
        elif k in ("flat_map", "flatten"):
            # a loop of its own over what the item contains
            x, r = self._run(i, cur, op, [item], line) if k == "flat_map" else (cur, item)
            h2 = self._node("next", inst, line, {"base": r})
            self._edge(x, h2)
            got = self._node("bb", inst, line, None)
            h2.succ += [(got.id, ("ok", "ok")), (head.id, ("ok", "no"))]
            head, cur, item = h2, got, ("nextitem", r)
        elif k == "scan":
            x, r = self._run(i, cur, op, [("t", ("undef",)), item], line)
            cur, item = x, ("payd", r)
        return head, cur, item

    def _pipe_next(self, inst, cur, c, args, dest, line, after, macs, pipe):
        done, src = self._pipe_starts(inst, cur, pipe, line)
        for n0, d in [(x, ("mkagg", "std::option::Option", "Some", item)) for _, x, item in src] + [(done, ("mkagg", "std::option::Option", "None", None))]:
            n = self._node("bind", inst, line, {"desc": d, "dest": dest})
            self._def(n, inst, dest, d)
            self._edge(n0, n)
            if after:
                self._edge(n, after)
        return True

    def _drained(self, inst, op):
        """Whether the operand is the result of draining a whole collection."""
        if op[0] not in ("c", "m") or len(op[1]) != 1:
            return False
        ts = [bb[1] for bb in inst.body.bb if bb is not None and bb[1][0] == "call" and bb[1][3] == [op[1][0]]]
        if len(ts) != 1 or ts[0][1][0] != "fn":
            return False
        c, a = Callee(ts[0][1][1], None), ts[0][2]
        if c.m == "into_iter":
            return self._drained(inst, a[0])
        return c.m == "drain" and (len(a) == 1 or "RangeFull" in str(a[1]) or a[1][0] in ("c", "m") and "RangeFull" in inst.body.locals[a[1][1][0]])
    def _consume(self, inst, cur, c, args, dest, line, after, macs, m):
        src = args[0]
        if m == "extend" or c.tr == "Extend":
            src = args[1]
        pipe = self._pipeline(inst, src) or [("base", inst, src)]
        hasclosure = any(s[0] != "base" for s in pipe)
        if m in ("collect", "extend", "from_iter", "sum", "count", "max", "min", "last", "product", "unzip", "cmp", "eq", "partition"):
            # the pipeline runs, then the consumer yields its result
            n = self._node("call", inst, line, {"cal": c, "args": args, "macs": macs, "dest": dest})
            if m in ("partition", "unzip"):
                hasclosure = True
            if m == "collect" and not hasclosure and self._drained(inst, pipe[0][2]):
                n.d["drained"] = True
            ty = short(inst.body.locals[dest[0]]) if len(dest) == 1 else ""
            if m in ("collect", "from_iter") and not hasclosure and "drained" not in n.d and ty in COLLS:
                # a new collection, and a loop of insertions
                n.d["cal"] = c2 = Callee(c.raw, c.body)
                c2.m, c2.tr, c2.name, c2.st = "new", None, ty + "::new", ty
                n.d["args"] = []
                self._edge(cur, n)
                self._def(n, inst, dest, ("callres", inst, n.id))
                self._extend_each(inst, n, c, [["c", dest], src], None, line, after, macs, ty, pipe)
                return True
            if hasclosure:
                done, srcs = self._pipe_starts(inst, cur, pipe, line)
                for head, x, item in srcs:
                    if m == "partition":
                        x, r = self._run(inst, x, args[1], [item], line)
                        tb = self._node("test", inst, line, {"desc": r, "bool": 1})
                        self._edge(x, tb)
                        for part, val in (("0", True), ("1", False)):
                            it = self._node("item", inst, line, {"desc": item, "for": n.id, "part": part})
                            tb.succ.append((it.id, ("b", val)))
                            self._edge(it, head)
                    elif m == "unzip":
                        for part in ("0", "1"):
                            it = self._node("item", inst, line, {"desc": ("fldd", item, part), "for": n.id, "part": part})
                            self._edge(x, it)
                            x = it
                        self._edge(x, head)
                    else:
                        it = self._node("item", inst, line, {"desc": item, "for": n.id})
                        self._edge(x, it)
                        self._edge(it, head)
                    ty = short(inst.body.locals[dest[0]]) if len(dest) == 1 else ""
                    if ty in ("Result", "Option") or m in ("cmp", "eq"):
                        self._edge(it, n)  # stops at the first error
                    n.d["item"] = ("phi2", n.d["item"], item) if "item" in n.d else item
                self._edge(done, n)
            else:
                self._edge(cur, n)
            self._def(n, inst, dest, ("callres", inst, n.id))
            if after:
                self._edge(n, after)
            return True
        if m not in ("for_each", "any", "all", "find", "position", "find_map", "fold", "try_fold", "try_for_each", "max_by_key", "min_by_key", "max_by", "min_by", "reduce"):
            return False
        done, srcs = self._pipe_starts(inst, cur, pipe, line)
        def bind(n0, desc):
            n = self._node("bind", inst, line, {"desc": desc, "dest": dest})
            self._def(n, inst, dest, desc)
            self._edge(n0, n)
            if after:
                self._edge(n, after)
            return n
        def test(n0, r, yes, no):
            tb = self._node("test", inst, line, {"desc": r, "bool": 1})
            self._edge(n0, tb)
            tb.succ += [(yes.id, ("b", True)), (no.id, ("b", False))]
        S, N = (lambda d: ("mkagg", "std::option::Option", "Some", d)), ("mkagg", "std::option::Option", "None", None)
        results = []
        for head, x, item in srcs:
            if m == "for_each":
                y, _ = self._run(inst, x, args[1], [item], line)
                self._edge(y, head)
            elif m in ("any", "all", "find", "position"):
                y, r = self._run(inst, x, args[1], [item], line)
                hit = self._node("bb", inst, line, None)
                if m == "all":
                    test(y, r, head, hit)
                    bind(hit, ("t", ("k", "false")))
                else:
                    test(y, r, hit, head)
                    if m == "any":
                        bind(hit, ("t", ("k", "true")))
                    else:
                        bind(hit, S(item if m == "find" else ("t", ("call", "index", (), None))))
            elif m == "find_map":
                y, r = self._run(inst, x, args[1], [item], line)
                tb = self._node("test", inst, line, {"desc": r})
                self._edge(y, tb)
                hit = self._node("bb", inst, line, None)
                tb.succ += [(hit.id, ("ok", "ok")), (head.id, ("ok", "no"))]
                bind(hit, r)
            elif m in ("fold", "try_fold"):
                f = args[2]
                y, r = self._run(inst, x, f, [("t", ("call", "acc", (), head.id)), item], line)
                self._edge(y, head)
                if m == "try_fold":
                    bind(y, r)
                results.append(r)
            elif m in ("try_for_each",):
                y, r = self._run(inst, x, args[1], [item], line)
                tb = self._node("test", inst, line, {"desc": r})
                self._edge(y, tb)
                hit = self._node("bb", inst, line, None)
                tb.succ += [(head.id, ("ok", "ok")), (hit.id, ("ok", "no"))]
                bind(hit, r)
            else:
                y, r = self._run(inst, x, args[1], [item, item] if m not in ("max_by_key", "min_by_key") else [item], line)
                self._edge(y, head)
                bind(y, S(item)).d["pick"] = (m, r)
        if m == "for_each":
            bind(done, ("t", ("k", "()")))
        elif m == "all":
            bind(done, ("t", ("k", "true")))
        elif m == "any":
            bind(done, ("t", ("k", "false")))
        elif m in ("fold", "try_fold"):
            d = ("op", inst, args[1])
            for r in results:
                d = ("phi2", d, r)
            bind(done, d)
        elif m == "try_for_each":
            bind(done, ("mkagg", "std::result::Result", "Ok", ("t", ("k", "()"))))
        else:
            bind(done, N)
        return True

    # ---------------------------------------------------------------- terms
    def desc(self, d, env=None):
        """Term of a value descriptor."""
        k = d[0]
        if k == "t":
            return d[1]
        if k == "op":
            return self.op(d[1], d[2], env)
        if k == "rv":
            return self.rv(d[1], d[2], env)
        if k == "ret":
            return self.local_term(d[1], 0, env)
        if k == "callres":
            return self.callterm(self.nodes[d[2]], env)
        if k == "payop":
            return mk_payload(self.op(d[1], d[2], env), "Ok", "0")
        if k == "payd":
            return mk_payload(self.desc(d[1], env), "Ok", "0")
        if k == "errop":
            return mk_payload(self.op(d[1], d[2], env), "Err", "0")
        if k == "mkagg":
            return ("agg", d[1], d[2], (("0", self.desc(d[3], env)),) if d[3] is not None else ())
        if k == "mktuple":
            return ("agg", "tuple", "", tuple((str(i), self.desc(x, env)) for i, x in enumerate(d[1])))
        if k == "nextitem":
            return self._item(self.desc(d[1], env))
        if k == "zipitem":
            t = self.desc(d[1], env)
            same = alignment(t) == alignment(self.desc(d[2], env)) + d[3]
            return self._item(t) if same else ("call", "misaligned", (self._item(t),), None)
        if k == "fldd":
            return mk_fld(self.desc(d[1], env), d[2])
        if k == "idx":
            return ("call", "index", (self.desc(d[1], env),), None)
        if k == "phi2":
            return mk_phi([self.desc(d[1], env), self.desc(d[2], env)])
        if k == "fnval":
            return self._fnval(d, env)
        if k == "tup":
            t = self.op(d[1], d[2], env)
            return mk_fld(t, str(d[3]))
        if k == "clenv":
            return self.rv(d[1], d[2], env) if d[1] is not None else ("undef",)
        if k == "clarg":
            # parameter j of a closure passed to an external call: an element /
            # payload of the receiver
            _, inst, nid, args, i, j = d
            if i == 0:
                return ("call", "cbarg", (), nid)
            recv = self.op(inst, args[0], env)
            return ("call", "cbarg" + str(j), (recv,), None)
        return ("undef",)

    def _item(self, t):
        c = range_over(t)
        if c is not None:
            return ("call", "index", (c,), None)
        if t[0] == "phi":
            return mk_phi([self._item(x) for x in t[1]])
        if t[0] == "call" and t[1] == "rev":
            return self._item(t[2][0])
        if t[0] == "call" and t[1] == "enumerate":
            return ("agg", "tuple", "", (("0", ("call", "index", (t[2][0],), None)), ("1", self._item(t[2][0]))))
        if t[0] == "call" and t[1] == "zip" and len(t[2]) == 2:
            same = alignment(t[2][0]) == alignment(t[2][1])
            it = self._item(t[2][1])
            return ("agg", "tuple", "", (("0", self._item(t[2][0])), ("1", it if same else ("call", "misaligned", (it,), None))))
        if t[0] == "call" and t[1] in ("skip", "take", "filter", "take_while", "step_by") and t[2]:
            return self._item(t[2][0])
        if t[0] == "call" and t[1] in ("values", "values_mut", "into_values") and t[2]:
            return ("fld", ("pay", ("next", t[2][0])), "1")
        if t[0] == "call" and t[1] in ("keys", "into_keys") and t[2]:
            return ("fld", ("pay", ("next", t[2][0])), "0")
        if t[0] == "call" and t[1] == "collect" and len(t) > 4:
            return t[4]
        if t[0] == "fld" and t[2] in ("0", "1") and t[1][0] == "call" and t[1][1] == "collect" and len(t[1]) > 4 and t[1][3] is not None and self.nodes[t[1][3]].d["cal"].m in ("partition", "unzip"):
            return t[1][4] if self.nodes[t[1][3]].d["cal"].m == "partition" else mk_fld(t[1][4], t[2])
        if t[0] == "agg" and t[1] == "array" and t[3]:
            return mk_phi([x for _, x in t[3]])
        return ("pay", ("next", t))

    def _fnval(self, d, env):
        _, inst, cal, params, nid = d
        c = Callee(cal, None)
        ps = [self.desc(p, env) for p in params]
        if c.m in ("Some", "Ok", "Err", "None") :
            return ("agg", "std::option::Option" if c.m in ("Some", "None") else "std::result::Result", c.m, tuple((str(i), p) for i, p in enumerate(ps)))
        segs = cal["p"].split("::")
        if len(segs) > 1 and segs[-2][:1].isupper() and segs[-1][:1].isupper():
            return ("agg", "::".join(segs[:-1]), segs[-1], tuple((str(i), p) for i, p in enumerate(ps)))
        return self._mkcall(c, ps, nid, None)

    def op(self, inst, o, env=None):
        if o[0] in ("c", "m"):
            return self.place(inst, o[1], env)
        if o[0] == "fn":
            return ("fn", o[1]["p"])
        return ("k", self._const(o))
    def _const(self, o):
        v = o[1]
        m = re.match(r"^(-?\d+)_[iu](8|16|32|64|128|size)$", v)
        if m:
            return m.group(1)
        v = v.strip()
        if v.startswith("const "):
            v = v[6:]
            m = re.match(r"^(-?\d+)_[iu](8|16|32|64|128|size)$", v)
            if m:
                return m.group(1)
        return v

    def rv(self, inst, r, env=None):
        k = r[0]
        if k == "use":
            return self.op(inst, r[1], env)
        if k == "ref":
            return self.place(inst, r[2], env)
        if k == "cast":
            return self.op(inst, r[2], env)
        if k == "bin":
            return mk_bin(r[1], self.op(inst, r[2], env), self.op(inst, r[3], env))
        if k == "un":
            if r[1] == "PtrMetadata":
                return ("call", "len", (self.op(inst, r[2], env),), None)
            return ("un", r[1], self.op(inst, r[2], env))
        if k == "disc":
            return ("un", "disc:" + r[2], self.place(inst, r[1], env))
        if k == "agg":
            kind, name, var, fields, ops = r[1:6]
            ts = [self.op(inst, o, env) for o in ops]
            if kind == "closure":
                return ("cl", name, tuple(ts))
            if kind == "coroutine":
                return ("cl", name, tuple(ts))
            if kind == "array":
                return ("agg", "array", "", tuple((str(i), t) for i, t in enumerate(ts)))
            if kind == "tuple":
                if not ts:
                    return ("k", "()")
                return ("agg", "tuple", "", tuple((str(i), t) for i, t in enumerate(ts)))
            return ("agg", name, var, tuple(zip(fields, ts)))
        if k == "rep":
            return ("call", "repeat", (self.op(inst, r[1], env),), None)
        return ("undef",)

    def local_term(self, inst, l, env=None):
        b = inst.body
        dep = self._deps(inst, l) if env else ()
        ch = tuple((x, env[x]) for x in dep if x in env) if env else ()
        key = (inst.id, l, ch)
        t = self._tmemo.get(key)
        if t is not None:
            return t
        self._tmemo[key] = ("rec", inst.id, l)
        defs = inst.defs.get(l, [])
        if 1 <= l <= b.argc:
            base = self.desc(inst.args[l - 1], env) if l - 1 < len(inst.args) else ("undef",)
            ts = [base]
            if defs:
                if env and ("c", inst.id, l) in env:
                    ts = [self.desc(defs[env[("c", inst.id, l)]][1], env)]
                else:
                    ts += [self.desc(d, env) for _, d in defs]
            t = mk_phi(ts)
        elif not defs:
            t = ("undef",)
        elif len(defs) == 1:
            t = self.desc(defs[0][1], env)
        else:
            c = env.get(("c", inst.id, l)) if env else None
            if c is not None:
                t = self.desc(defs[c][1], env)
                me = ("rec", inst.id, l)
                if has_term(t, me):
                    # x = op(x): the inner one is the definition before, unless in a loop
                    prev = self._reaching(inst, l, c)
                    if prev and c not in prev:
                        t = replace_term(t, me, mk_phi([self.local_term(inst, l, {**env, ("c", inst.id, l): d}) for d in prev]))
            else:
                t = mk_phi([self.desc(d, env) for _, d in defs])
        # partially assigned aggregates
        ps = inst.partial.get(l)
        if ps and (t[0] in ("agg", "undef", "call", "k", "phi", "upd", "static") or (l > b.argc and t[0] in ("pay", "fld", "get") and not b.locals[l].startswith("&"))):
            over = {}
            for f, ws in self._partials(inst, l).items():
                c = env.get(("c", inst.id, l, f)) if env else None
                if c is None:
                    over[f] = [self.desc(d, env) for _, d in ws] + ([mk_fld(t, f)] if t[0] in ("agg",) else [])
                elif c >= 0:
                    over[f] = [self.desc(ws[c][1], env)]
            if t[0] == "agg":
                d = dict(t[3])
                if over and all(f in d for f in over):
                    d.update((f, mk_phi(v)) for f, v in over.items())
                    t, over = ("agg", t[1], t[2], tuple((f, d[f]) for f, _ in t[3])), {}
            if over and t[0] == "call" and t[1].startswith("default:"):
                # a default value with some fields assigned
                full = self._full_adt(t[1][8:])
                if full and set(over) <= set(full[2]):
                    t, over = ("agg",) + full[:2] + (tuple((f, mk_phi(over[f]) if f in over else mk_fld(t, f)) for f in full[2]),), {}
            if over and t[0] != "phi":
                t = ("upd", t, tuple(sorted(((f, mk_phi(v)) for f, v in over.items()), key=lambda x: x[0])))
        if self.cells is None:
            if l > b.argc and t[0] in ("agg", "upd", "fld", "call") and short(b.locals[l]) in self.cell_types and not b.locals[l].startswith("&"):
                t = ("cell", (inst.id, l), t, ())
        elif (inst.id, l) in self.cells:
            t = ("cell", (inst.id, l), t, self.cells[(inst.id, l)])
        if self._depth(t) > 40:
            t = ("deep", inst.id, l)
        self._tmemo[key] = t
        return t
    def _full_adt(self, sh):
        for k in self.prog.adt_paths(sh):
            vs = self.prog.adts[k]["variants"]
            if len(vs) == 1 and not self.prog.adts[k]["enum"]:
                return k, "", list(vs[0][2])
        return None
    def _reaching(self, inst, l, c):
        """Definitions of a local that reach its definition c."""
        key = (inst.id, l, c)
        r = self._rmemo.get(key)
        if r is None:
            defs = inst.defs[l]
            stop = {d[0] for d in defs}
            r = []
            for i, (d, _) in enumerate(defs):
                seen, st, hit = set(), [x for x, _ in self.nodes[d].succ], False
                while st and not hit:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    hit = x == defs[c][0]
                    if x not in stop:
                        st += [y for y, _ in self.nodes[x].succ]
                if hit:
                    r.append(i)
            self._rmemo[key] = r
        return r
    def _partials(self, inst, l):
        """Fields of a local that are assigned directly: field -> [(node, value)]."""
        key = (inst.id, l)
        r = self._pmemo.get(key) if self._pmemo is not None else None
        if r is None:
            r = {}
            for path, nid, d in inst.partial.get(l, ()):
                if len(path) == 1 and path[0].startswith("."):
                    r.setdefault(path[0][1:].split("|")[0], []).append((nid, d))
            if self._pmemo is not None:
                self._pmemo[key] = r
        return r
    def _find_cells(self):
        """Fields of local aggregates that are assigned through references."""
        self.cells = None
        self.cell_types = self.prog.local_adts()
        self._tmemo.clear()
        cells = {}
        for n in self.nodes:
            pl = n.d.get("place") if n.kind == "assign" else n.d.get("dest") if n.kind in ("ret", "bind", "call") else None
            if not pl or len(pl) < 2 or "*" not in pl:
                continue
            t = self._path_of(n.inst, pl, None)
            for x in alts(t) if t else []:
                f = None
                while x[0] in ("fld", "pay", "err"):
                    f, x = (x[2] if x[0] == "fld" else None), x[1]
                if x[0] == "cell" and f:
                    cells.setdefault(x[1], {}).setdefault(f, set())
                    v = self.wval(n, None)
                    y = t
                    if t[0] == "fld" or t[0] == "phi":
                        v = uncell(v)
                    else:
                        v = ("more",)
                    cells[x[1]][f].add(v)
        self._tmemo.clear()
        self.cells = {k: tuple(sorted(((f, frozenset(vs)) for f, vs in v.items()), key=lambda z: z[0])) for k, v in cells.items()}
    def _depth(self, t, d=0):
        if d > 41:
            return d
        m = d
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in ([x] if x and isinstance(x[0], str) else x):
                    if isinstance(y, tuple):
                        m = max(m, self._depth(y, d + 1))
                        if m > 41:
                            return m
        return m

    def place(self, inst, pl, env=None):
        t = self.local_term(inst, pl[0], env)
        var = None
        for p in pl[1:]:
            if p == "*":
                continue
            if p[0] == ".":
                f, adt = p[1:].split("|")
                if var is not None:
                    t = mk_payload(t, var, f, short(adt) in OKTYPES)
                    var = None
                else:
                    t = self._fld(t, f)
            elif p[0] == "@":
                var = p[1:]
            elif p[0] == "^":
                i = int(p[1:].split("|")[0])
                t = self._upvar(t, i, p.split("|")[1])
            elif p[0] == "[":
                idx = self.local_term(inst, int(p[1:]), env)
                t = ("pay", ("next", t)) if is_index(idx, t) else ("pay", ("get", t, idx)) if idx[0] == "call" and idx[1] == "index" else ("get", t, idx)
            elif p[0] == "#":
                if p[1:].lstrip("-").isdigit() and t[0] == "agg" and t[1] == "array":
                    t = mk_fld(t, p[1:])
                else:
                    t = ("get", t, ("k", p[1:]))
        return t
    def _fld(self, t, f):
        return mk_fld(t, f)
    def _upvar(self, t, i, name):
        if t[0] == "phi":
            return mk_phi([self._upvar(x, i, name) for x in t[1]])
        if t[0] == "cl":
            return t[2][i] if i < len(t[2]) else ("undef",)
        return ("fld", t, "^" + name)

    def callterm(self, n, env=None):
        c = n.d["cal"]
        if c is None:
            return ("call", "?", (), n.id)
        if "xargs" in n.d:
            ps = [self.desc(p, env) for p in n.d["xargs"]]
        else:
            ps = [self.op(n.inst, a, env) for a in n.d["args"]]
        item = self.desc(n.d["item"], None) if "item" in n.d else None
        if c.m == "finish" and c.tr == "Hasher" and ps:
            xs = [self.op(q.inst, q.d["args"][0], env) for q in self._hash_nodes() if self.op(q.inst, q.d["args"][1], env) == ps[0]]
            if xs:
                return ("call", "hash_of", tuple(sorted(xs, key=repr)), None)
        dest_ty = None
        if n.d.get("dest"):
            dest_ty = n.inst.body.locals[n.d["dest"][0]] if len(n.d["dest"]) == 1 else None
        return self._mkcall(c, ps, n.id, dest_ty, item)

    def _counted(self, t):
        """A collection with as many elements as t: what it was mapped from."""
        while t[0] == "call" and t[2]:
            if t[1] == "collect" and t[3] is not None:
                n = self.nodes[t[3]]
                d = n.d.get("dest")
                if not d or len(d) != 1 or short(n.inst.body.locals[d[0]]) not in ("Vec", "VecDeque"):
                    break
            elif t[1] not in ("map", "enumerate", "rev", "values", "keys", "inspect"):
                break
            t = t[2][0]
        return t
    def _hash_nodes(self):
        """Calls that feed a value into a hasher."""
        if len(self.nodes) != self._hn[0]:
            self._hn = (len(self.nodes), [q for q in self.nodes if q.kind == "call" and q.d["cal"] is not None and q.d["cal"].m == "hash" and q.d["cal"].tr == "Hash" and len(q.d["args"]) == 2])
        return self._hn[1]
    _hn = (0, [])

    def _forward(self):
        """A list built locally only to be moved into another one is that one."""
        for cur, head, done, i, a, j, b, c, st in self._fwds:
            A, B = self.desc(("op", i, a)), self.desc(("op", j, b))
            nid, items = B[3] if B[0] == "call" else None, None
            col = B[1] if B[0] == "fld" else B
            if col[0] == "call" and col[1] == "collect" and len(col) > 4 and col[3] is not None and self.nodes[col[3]].kind == "call":
                # the items of an iterator that is collected first
                d = self.nodes[col[3]].d.get("dest")
                if not d or len(d) != 1 or col is B and short(self.nodes[col[3]].inst.body.locals[d[0]]) in ("Result", "Option"):
                    continue
                nid = col[3]
                items = [n for n in self.nodes if n.kind == "item" and n.d.get("for") == nid and (col is B or n.d.get("part") == B[2])]
                if not items:
                    continue
            elif B[0] != "call" or B[1] not in NEWS or len(B[2]):
                continue
            if nid is None or A == B or nid in self._alias or B in list(alts(A)):
                continue
            used = False
            for n in self.nodes:
                if n.kind == "call" and n.d["cal"] is not None:
                    ps = [self.desc(("op", n.inst, o)) for o in n.d.get("args") or []] + [self.desc(d) for d in n.d.get("xargs") or []]
                    used = used or any(B in alts(t) and not (k == 0 and n.d["cal"].m in FWD_GROW) for k, t in enumerate(ps))
                elif n.kind == "next" and n.id != head.id:
                    used = used or B in alts(self.desc(n.d["base"]))
                elif n.kind == "assign" and n.d["rv"][0] == "agg":
                    used = used or any(o[0] in ("c", "m") and B in alts(self.desc(("op", n.inst, o))) for o in n.d["rv"][5])
            seen, todo = {nid}, [nid]
            while todo:
                for x, _ in self.nodes[todo.pop()].succ:
                    if x not in seen and x != head.id:
                        seen.add(x)
                        todo.append(x)
            if used or self.end.id in seen:
                continue
            if items is None:
                self._alias[nid] = A
            for n in items or ():
                it = n.d["desc"]
                n.kind, n.d = "call", {"cal": _adder(c, st), "args": [], "xargs": [("op", i, a)] + ([("fldd", it, "0"), ("fldd", it, "1")] if st.endswith("Map") else [it]), "macs": (), "dest": None}
            cur.succ = [(done.id if x == head.id else x, l) for x, l in cur.succ]
            self._tmemo.clear()

    def _mkcall(self, c, ps, nid, dest_ty, item=None):
        if nid in self._alias:
            return self._alias[nid]
        m = c.m
        st = short(c.st) if c.st else ""
        if m == "from_residual":
            if dest_ty and short(dest_ty) == "Option":
                return ("agg", "std::option::Option", "None", ())
            return ("agg", "std::result::Result", "Err", (("0", ps[0] if ps[0][0] != "agg" or ps[0][2] not in ("Err", "Ok") else mk_payload(ps[0], "Err", "0")),))
        if c.tr == "Iterator" and m == "rev" and ps:
            return ("call", "rev", (ps[0],), None)
        if c.tr == "Iterator" and m == "next" and ps:
            if any(partial_iter(x) for x in alts(ps[0])):
                return ("call", "nextpart", (self._item(ps[0]),), None)
            it = self._item(ps[0])
            if it[0] == "pay":
                return it[1]
            src = [x[3] for x in alts(ps[0]) if x[0] == "call" and x[1] == "collect"]
            return ("call", "nextof", (it,), src[0] if len(src) == len(alts(ps[0])) == 1 else None)
        if m in ("collect", "from_iter", "partition", "unzip") and (c.tr in ("Iterator", "FromIterator")) and ps:
            if self.nodes[nid].d.get("drained"):
                return ("call", "take", (ps[0],), nid)
            if item is not None:
                return ("call", "collect", (ps[0],), nid, item)
            if c.tr == "Iterator" and dest_ty and short(dest_ty) not in ("Result", "Option"):
                return ("call", "collect", (ps[0],), nid, self._item(ps[0]))
            return ("call", "collect", (ps[0],), nid, self._item(ps[0]))
        if m in TRANSPARENT and len(ps) >= 1 and c.body is None:
            if m in ("from", "try_from") and c.tr not in ("From", "TryFrom"):
                pass
            elif m in ("read", "write", "lock", "inner", "take", "upgrade", "downgrade", "from_vec") and st not in ("RefCell", "Mutex", "RwLock", "Rc", "Arc", "Weak"):
                pass
            elif c.tr is None and st == "" and m in ("from",):
                pass
            else:
                return ps[0]
        if m == "new" and st == "RangeInclusive" and len(ps) == 2:
            return ("agg", "RangeInclusive", "", (("start", ps[0]), ("end", ps[1])))
        if m == "new" and st in NEW_WRAPPERS and ps:
            return ps[0]
        if st == "Argument" and m.startswith("new_") and "fmt" in c.p and ps:
            return ps[0]
        if st == "Arguments" and "fmt" in c.p:
            return ("call", "fmt", tuple(ps), None)
        if m == "format" and "fmt::format" in c.p and ps:
            return ("call", "format", tuple(ps[0][2]) if ps[0][0] == "call" and ps[0][1] == "fmt" else tuple(ps), None)
        if m in LOOKUP and len(ps) >= 2 and is_index(ps[1], ps[0]):
            return ("next", ps[0]) if m not in ("index", "index_mut") else ("pay", ("next", ps[0]))
        if m in LOOKUP and len(ps) == 2:
            return ("get", ps[0], ps[1]) if m not in ("index", "index_mut") else ("pay", ("get", ps[0], ps[1]))
        if m in ("entry", "entry_ref") and len(ps) == 2:
            return ("get", ps[0], ps[1])
        if st == "OccupiedEntry" and m in ("get", "get_mut", "into_mut") and ps:
            return ps[0]
        if m in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key", "or_insert_entry", "insert_entry") and ps and ps[0][0] == "get":
            return ("pay", ps[0])
        if m == "remove" and len(ps) == 2:
            return ("call", "remove", tuple(ps), nid)
        if m in ("take",) and st == "Option":
            return ("call", "take", tuple(ps), nid)
        if m in ("take", "replace") and st == "" and "mem" in c.p:
            if m == "replace" and len(ps) == 2 and is_new(ps[1]):
                return ("call", "take", (ps[0],), nid)
            return ("call", m, tuple(ps), nid)
        if m in PANICS and ps:
            return mk_payload(ps[0], "Ok" if m in ("unwrap", "expect") else "Err", "0")
        if m in ("next_back", "pop_front", "pop", "pop_first", "pop_back", "pop_last") and ps:
            return ("call", "pop", (ps[0],), nid)
        if c.tr == "Default" and m == "default":
            return ("call", "default:" + short(c.st), (), nid)
        if m in ("add", "sub", "mul", "div", "rem", "not") and c.tr in ("Add", "Sub", "Mul", "Div", "Rem") and len(ps) == 2:
            return ("bin", c.tr, ps[0], ps[1])
        if m in ("len", "is_empty") and len(ps) == 1:
            ps = [self._counted(ps[0])]
        if m in CHECKED and len(ps) == 2 and st in ("u8", "u16", "u32", "u64", "u128", "usize"):
            return ("call", m, tuple(ps) + (("k", st + "::MAX"),), None)
        if m in PURE:
            return ("call", m if c.tr is None or c.tr in STD_TRAITS else c.name, tuple(ps), None)
        if c.body is None and c.raw["id"].split("::")[0] in ("core", "std", "alloc", "hashbrown") :
            return ("call", m, tuple(ps), nid)
        return ("call", c.name, tuple(ps), nid)

    # ---------------------------------------------------------------- deps
    def _deps(self, inst, l):
        key = (inst.id, l)
        r = self._depmemo.get(key)
        if r is None:
            r = self._depmemo[key] = self._mkdeps(inst, l)
        return r
    def _mkdeps(self, inst, l):
        seen, out, st = set(), [], [(inst, l)]
        while st:
            i, x = st.pop()
            if (i.id, x) in seen:
                continue
            seen.add((i.id, x))
            if len(seen) > 400:
                break
            if ("c", i.id, x) in self.tracked:
                out.append(("c", i.id, x))
            for f in self._partials(i, x):
                if ("c", i.id, x, f) in self.tracked:
                    out.append(("c", i.id, x, f))
            st += self._uses_of(i, x)
        return tuple(sorted(out))
    def _uses_of(self, i, x):
        key = (i.id, x)
        r = self._usememo.get(key)
        if r is not None:
            return r
        out = []
        ds = [d for _, d in i.defs.get(x, [])] + [d for _, _, d in i.partial.get(x, [])]
        if 1 <= x <= i.body.argc and x - 1 < len(i.args):
            ds.append(i.args[x - 1])
        for d in ds:
            out += self._desc_uses(d)
        self._usememo[key] = out
        return out
    def _direct(self, uses):
        """Tracked choices a value depends on, up to the first ones."""
        out, seen, st = set(), set(), list(uses)
        while st:
            i, x = st.pop()
            if (i.id, x) in seen or len(seen) > 400:
                continue
            seen.add((i.id, x))
            ps = self._partials(i, x)
            for f in ps:
                if ("c", i.id, x, f) in self.tracked:
                    out.add(("c", i.id, x, f))
            if ("c", i.id, x) in self.tracked:
                out.add(("c", i.id, x))
                if i.partial.get(x):
                    for _, _, d in i.partial[x]:
                        if not any(d is e for f in ps if ("c", i.id, x, f) in self.tracked for _, e in ps[f]):
                            st += self._desc_uses(d)
                continue
            for _, d in i.defs.get(x, []):
                st += self._desc_uses(d)
            for _, _, d in i.partial.get(x, []):
                if not any(d is e for f in ps if ("c", i.id, x, f) in self.tracked for _, e in ps[f]):
                    st += self._desc_uses(d)
            if 1 <= x <= i.body.argc and x - 1 < len(i.args):
                st += self._desc_uses(i.args[x - 1])
        return out
    def _behind(self, k, c):
        """Tracked choices the chosen definition of a variable depends on."""
        r = self._behindmemo.get((k, c))
        if r is None:
            i = self.insts[k[1]]
            ds = [d for _, d in (self._partials(i, k[2])[k[3]] if len(k) == 4 else i.defs.get(k[2], []))]
            if c is not None:
                ds = [ds[c]] if c >= 0 else []
            us = [u for d in ds for u in self._desc_uses(d)]
            if c is None and len(k) == 3 and 1 <= k[2] <= i.body.argc and k[2] - 1 < len(i.args):
                us += self._desc_uses(i.args[k[2] - 1])
            r = self._behindmemo[(k, c)] = self._direct(us)
        return r
    def _needed(self, ch, lv):
        """Choices that matter: those read later, and what they depend on."""
        st = [k for k in lv if k[0] == "c"]
        seen = set(st)
        while st:
            k = st.pop()
            for x in self._behind(k, ch.get(k)):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen
    def _op_uses(self, inst, o):
        if o and o[0] in ("c", "m"):
            return [(inst, o[1][0])] + [(inst, int(p[1:])) for p in o[1][1:] if p[0] == "["]
        return []
    def _desc_uses(self, d):
        k = d[0]
        if k in ("op", "payop", "errop"):
            return self._op_uses(d[1], d[2])
        if k == "tup":
            return self._op_uses(d[1], d[2])
        if k == "rv":
            return self._rv_uses(d[1], d[2])
        if k == "clenv":
            return self._rv_uses(d[1], d[2]) if d[1] is not None else []
        if k == "ret":
            return [(d[1], 0)]
        if k == "callres":
            n = self.nodes[d[2]]
            out = []
            for a in n.d.get("args", []):
                out += self._op_uses(n.inst, a)
            for a in n.d.get("xargs", []):
                out += self._desc_uses(a)
            if "item" in n.d:
                out += self._desc_uses(n.d["item"])
            return out
        if k == "mkagg":
            return self._desc_uses(d[3]) if d[3] is not None else []
        if k == "mktuple":
            return [u for x in d[1] for u in self._desc_uses(x)]
        if k in ("nextitem", "zipitem", "payd", "idx", "fldd"):
            return self._desc_uses(d[1])
        if k == "phi2":
            return self._desc_uses(d[1]) + self._desc_uses(d[2])
        if k == "fnval":
            return [u for x in d[3] for u in self._desc_uses(x)]
        if k == "clarg":
            return self._op_uses(d[1], d[3][0]) if d[4] != 0 else []
        return []
    def _rv_uses(self, inst, r):
        k = r[0]
        if k in ("use", "rep"):
            return self._op_uses(inst, r[1])
        if k == "ref":
            return self._op_uses(inst, ["c", r[2]])
        if k == "cast":
            return self._op_uses(inst, r[2])
        if k == "bin":
            return self._op_uses(inst, r[2]) + self._op_uses(inst, r[3])
        if k == "un":
            return self._op_uses(inst, r[2])
        if k == "disc":
            return self._op_uses(inst, ["c", r[1]])
        if k == "agg":
            return [u for o in r[5] for u in self._op_uses(inst, o)]
        return []

    # ---------------------------------------------------------------- facts
    def variant_key(self, t):
        """Canonical (term, kind) whose variant is being tested."""
        return t
    def fact_of(self, n, label, env=None):
        """Facts implied by taking the edge `label` of branch node n: a list of
        (key, value), or True (always taken), or False (never)."""
        if label is None:
            return []
        kind, v = label
        if n.kind == "switch":
            if n.d.get("stale"):
                return []
            t = self.op(n.inst, n.d["op"], env)
            if t[0] == "un" and t[1].startswith("disc:"):
                adt = t[1][5:]
                return self._variant_fact(t[2], adt, n, v)
            if n.d["ty"] == "bool":
                if v is None:
                    val = not any(x[0] == "1" for x in n.d["vals"]) if len(n.d["vals"]) == 1 else None
                    if val is None:
                        return False
                else:
                    val = v != "0"
                return self.bool_fact(t, val)
            vals = [x[0] for x in n.d["vals"]]
            out = []
            if t[0] == "k":
                if v is not None:
                    return t[1] == v or False if False else (True if t[1] == v else False)
                return t[1] not in vals
            if v is not None:
                return [(("eq", t, ("k", v)), True)]
            return [(("eq", t, ("k", x)), False) for x in vals]
        if n.kind in ("test", "next"):
            if n.kind == "next":
                bs = [self.desc(b, env) for b in [n.d["base"]] + n.d.get("also", [])]
                part = [partial_iter(b) for b in bs]
                if v == "no" and any(part):      # the shorter side ended the loop
                    bs = [b for b, p in zip(bs, part) if p]
                return [(("var", ("next", b)), v) for b in bs]
            t = self.desc(n.d["desc"], env)
            if kind == "b":
                return self.bool_fact(t, v)
            return self._ok_fact(t, v)
        return []
    def _ok_fact(self, t, v):
        if t[0] == "agg":
            o = OKV.get(t[2])
            if o is not None:
                return [] if o == v else False
        if t[0] == "phi":
            os = {OKV.get(x[2]) if x[0] == "agg" else None for x in t[1]}
            if len(os) == 1 and None not in os:
                return [] if os == {v} else False
        if t[0] == "call" and t[1] == "checked_add" and len(t[2]) == 3:
            return self._lt(("bin", "Sub", t[2][2], t[2][1]), t[2][0], v == "no")
        if t[0] == "call" and t[1] == "checked_sub" and len(t[2]) == 3:
            return self._lt(t[2][0], t[2][1], v == "no")
        return [(("var", t), v)]
    def _variant_fact(self, t, adt, n, v):
        sh = short(adt)
        info = self.prog.adts.get(adt)
        names = {x[1]: x[0] for x in info["variants"]} if info else {}
        vals = [x[0] for x in n.d["vals"]]
        if v is not None:
            vn = names.get(v, v)
            cand = [vn]
        else:
            cand = [nm for dv, nm in names.items() if dv not in vals]
        if sh in OKTYPES:
            oks = {OKV.get(c, c) for c in cand}
            if len(oks) == 1:
                return self._ok_fact(t, next(iter(oks)))
            return [] if cand else False
        if t[0] == "agg":
            return [] if t[2] in cand else False
        if t[0] == "phi" and all(x[0] == "agg" for x in t[1]):
            vs = {x[2] for x in t[1]}
            if not (vs & set(cand)):
                return False
            if vs <= set(cand):
                return []
        if not cand:
            return False
        if sh == "Ordering" and t[0] == "call" and t[1] in ("cmp", "partial_cmp") and len(t[2]) == 2:
            a, b = t[2]
            out = []
            if cand == ["Less"]:
                out = [(("lt", a, b), True)]
            elif cand == ["Greater"]:
                out = [(("lt", b, a), True)]
            elif cand == ["Equal"]:
                out = self._eq_fact(a, b, True)
            elif set(cand) == {"Less", "Equal"}:
                out = [(("lt", b, a), False)]
            elif set(cand) == {"Greater", "Equal"}:
                out = [(("lt", a, b), False)]
            elif set(cand) == {"Greater", "Less"}:
                out = self._eq_fact(a, b, False)
            return out if isinstance(out, list) else out
        if len(cand) == 1:
            return [(("var", t), cand[0])]
        return [(("var", t), "|".join(sorted(cand)))]
    def _disc(self, t):
        if t[0] == "agg" and t[2] and not t[3]:
            info = self.prog.adts.get(t[1])
            if info and info.get("enum"):
                return next((str(v[1]) for v in info["variants"] if v[0] == t[2]), None)
        return None
    def _eq_fact(self, a, b, val):
        if a[0] == "k" and b[0] == "k":
            if a[1] == b[1]:
                return [] if val else False
            if re.match(r"^-?\d+$|^true$|^false$", a[1]) and re.match(r"^-?\d+$|^true$|^false$", b[1]):
                return False if val else []
        for x, y in ((a, b), (b, a)):
            # numeric value of an enum
            if x[0] == "k" and re.match(r"^-?\d+$", x[1]):
                ds = [self._disc(z) for z in alts(y)]
                if all(d is not None for d in ds):
                    if all((d == x[1]) == val for d in ds):
                        return []
                    if all((d == x[1]) != val for d in ds):
                        return False
            if y[0] == "k" and y[1] in ("true", "false"):
                return self.bool_fact(x, (y[1] == "true") == val)
            if y[0] == "agg" and y[2] and not y[3] and y[1] != "array":
                vn = OKV.get(y[2], y[2]) if short(y[1]) in OKTYPES else y[2]
                if x[0] == "agg" and x[2]:
                    same = (OKV.get(x[2], x[2]) == vn) if short(y[1]) in OKTYPES else x[2] == vn
                    return ([] if same == val else False)
                if val:
                    return [(("var", x), vn)]
                if vn in ("ok", "no"):
                    return [(("var", x), "no" if vn == "ok" else "ok")]
                info = self.prog.adts.get(y[1])
                rest = [v[0] for v in info["variants"] if v[0] != vn] if info else []
                if rest:
                    return [(("var", x), "|".join(sorted(rest)))]
                return [(("var", x), "!" + vn)]
            if y[0] == "k" and y[1] == "0" and x[0] == "call" and x[1] == "len":
                return [(("true", ("call", "is_empty", x[2], None)), val)]
            # enum as i32 comparison
        if a == b and a[0] in ("arg", "fld", "k"):
            return [] if val else False
        x, y = sorted((a, b), key=repr)
        return [(("eq", x, y), val)]
    def bool_fact(self, t, val):
        k = t[0]
        if k == "k":
            if t[1] in ("true", "false"):
                return [] if (t[1] == "true") == val else False
            return []
        if k == "un" and t[1] == "Not":
            return self.bool_fact(t[2], not val)
        if k == "bin":
            op, a, b = t[1], t[2], t[3]
            if op == "Eq":
                return self._eq_fact(a, b, val)
            if op == "Ne":
                return self._eq_fact(a, b, not val)
            if op == "Lt":
                return self._lt(a, b, val)
            if op == "Ge":
                return self._lt(a, b, not val)
            if op == "Gt":
                return self._lt(b, a, val)
            if op == "Le":
                return self._lt(b, a, not val)
            if op == "BitAnd" and val:
                f, g = self.bool_fact(a, True), self.bool_fact(b, True)
                return False if f is False or g is False else f + g
            if op == "BitOr" and not val:
                f, g = self.bool_fact(a, False), self.bool_fact(b, False)
                return False if f is False or g is False else f + g
        if k == "call":
            m, ps = t[1], t[2]
            if m in ("is_some", "is_ok") and ps:
                return self._ok_fact(ps[0], "ok" if val else "no")
            if m in ("is_none", "is_err") and ps:
                return self._ok_fact(ps[0], "no" if val else "ok")
            if m == "contains_key" and len(ps) == 2:
                return [(("var", ("get", ps[0], ps[1])), "ok" if val else "no")]
            if len(ps) == 2:
                if m == "eq":
                    return self._eq_fact(ps[0], ps[1], val)
                if m == "ne":
                    return self._eq_fact(ps[0], ps[1], not val)
                if m == "lt":
                    return self._lt(ps[0], ps[1], val)
                if m == "ge":
                    return self._lt(ps[0], ps[1], not val)
                if m == "gt":
                    return self._lt(ps[1], ps[0], val)
                if m == "le":
                    return self._lt(ps[1], ps[0], not val)
            if m == "not" and ps:
                return self.bool_fact(ps[0], not val)
        if k == "phi":
            vs = {x[1] if x[0] == "k" else None for x in t[1]}
            if vs == {"true"} or vs == {"false"}:
                return [] if (vs == {"true"}) == val else False
        return [(("true", t), val)]
    def _lt(self, a, b, val):
        if a[0] == "k" and b[0] == "k" and a[1].lstrip("-").isdigit() and b[1].lstrip("-").isdigit():
            return [] if (int(a[1]) < int(b[1])) == val else False
        # 0 < len(x)  /  len(x) < 1
        if a == ("k", "0") and b[0] == "call" and b[1] == "len":
            return [(("true", ("call", "is_empty", b[2], None)), not val)]
        if b == ("k", "1") and a[0] == "call" and a[1] == "len":
            return [(("true", ("call", "is_empty", a[2], None)), val)]
        return [(("lt", a, b), val)]

    # ---------------------------------------------------------------- product
    def _finish(self, track):
        self._pmemo = {}
        self._find_cells()
        self._forward()
        self._depmemo = {}
        self._usememo = {}
        self.tracked = set()
        N = len(self.nodes)
        self.pred = [[] for _ in range(N)]
        for n in self.nodes:
            for s, l in n.succ:
                self.pred[s].append(n.id)
        # branch nodes and the multiply-defined variables they depend on
        branches = [n for n in self.nodes if (n.kind in ("switch", "test", "next")) and len(n.succ) > 1]
        self.branches = branches
        self._mark_stale()
        interest = {}
        # values that reach effects: stored, handed to opaque callees, returned
        sinks = []
        if track:
            for n in self.nodes:
                if n.kind == "call" and n.d["cal"] is not None and not n.d.get("macs"):
                    c = n.d["cal"]
                    if c.m in SINKS or (c.body is None and not c.raw["id"].split("::")[0] in ("core", "std", "alloc")):
                        us = []
                        for a in n.d.get("args", []):
                            us += self._op_uses(n.inst, a)
                        for a in n.d.get("xargs", []):
                            us += self._desc_uses(a)
                        sinks.append((n, us))
                elif n.kind == "assign" and len(n.d["place"]) > 1:
                    sinks.append((n, self._rv_uses(n.inst, n.d["rv"])))
                elif n.kind in ("ret", "bind") and n.d.get("dest") and len(n.d["dest"]) > 1:
                    sinks.append((n, [(n.d["sub"], 0)] if n.kind == "ret" else self._desc_uses(n.d["desc"])))
                elif n.kind == "item":
                    sinks.append((n, self._desc_uses(n.d["desc"])))
            sinks.append((self.end, [(self.root, 0)]))
        if track:
            for n, uses in [(n, None) for n in branches] + sinks:
                if uses is not None:
                    pass
                elif n.kind == "switch":
                    uses = self._op_uses(n.inst, n.d["op"])
                elif n.kind == "test":
                    uses = self._desc_uses(n.d["desc"])
                else:
                    uses = self._desc_uses(n.d["base"])
                seen = set()
                st = deque(uses)
                while st:
                    i, x = st.popleft()
                    if (i.id, x) in seen or len(seen) > 400:
                        continue
                    seen.add((i.id, x))
                    nd = len(i.defs.get(x, []))
                    if nd > 1 or (nd == 1 and 1 <= x <= i.body.argc):
                        self.tracked.add(("c", i.id, x))
                        interest.setdefault(("c", i.id, x), set()).add(n.id)
                    for f in self._partials(i, x):
                        self.tracked.add(("c", i.id, x, f))
                        interest.setdefault(("c", i.id, x, f), set()).add(n.id)
                    st += self._uses_of(i, x)
            self._tmemo.clear()
            self._depmemo.clear()
        # fact keys tested at several places
        cnt = {}
        keyat = {}
        for n in branches:
            ks = set()
            for s, l in n.succ:
                for al in self._all_facts(n, l):
                    ks.add(al)
            for k in ks:
                keyat.setdefault(k, set()).add(n.id)
        self.fkeys = {k for k, v in keyat.items() if len(v) > 1} if track else set()
        # liveness (backward reachability of a use)
        items = []
        self._behindmemo = {}
        if track:
            interest = {}
            for n, uses in [(n, None) for n in branches] + sinks:
                if uses is None:
                    uses = self._op_uses(n.inst, n.d["op"]) if n.kind == "switch" else self._desc_uses(n.d["desc"]) if n.kind == "test" else self._desc_uses(n.d["base"])
                for k in self._direct(uses):
                    interest.setdefault(k, set()).add(n.id)
            for k in self.tracked:
                i = self.insts[k[1]]
                for nid, d in (self._partials(i, k[2])[k[3]] if len(k) == 4 else i.defs.get(k[2], [])):
                    for x in self._direct(self._desc_uses(d)):
                        interest.setdefault(x, set()).add(nid)
            items = []
            for k, v in interest.items():
                i = self.insts[k[1]]
                stops = {nid for nid, _ in i.defs.get(k[2], [])}
                if len(k) == 4:
                    stops |= {nid for nid, _ in self._partials(i, k[2])[k[3]]}
                items.append((k, v, stops))
        killers = [n for n in self.nodes if n.kind == "next" or (n.kind == "call" and n.d["cal"] is not None and n.d["cal"].tr == "Iterator" and n.d["cal"].m == "next")]
        for k in self.fkeys:
            items.append((("f", k), keyat[k], {n.id for n in killers if not self._kill(n, {k: True}, {})}))
        self.live = [frozenset()] * N
        live = [set() for _ in range(N)]
        for k, uses, stops in items:
            st = list(uses)
            seen = set(st)
            for u in st:
                live[u].add(k)
            while st:
                x = st.pop()
                for p in self.pred[x]:
                    if p in seen:
                        continue
                    # value needed on entry to x; p defines it -> not live before p
                    seen.add(p)
                    if p in stops:
                        continue
                    live[p].add(k)
                    st.append(p)
        self.live = live
        self._explore()

    def _mark_stale(self):
        """Branches on a value that was read from a place before the place was
        written again: nothing is known about the place there."""
        wr = {}
        for n in self.nodes:
            pl = n.d.get("place") if n.kind == "assign" else n.d.get("dest") if n.kind in ("ret", "bind", "call") else None
            if pl and len(pl) > 1:
                for x in alts(self._path_of(n.inst, pl, None) or ("undef",)):
                    if x[0] == "fld":
                        wr.setdefault(x, []).append(n.id)
        if not wr:
            return
        memo = {}
        def reach(a, avoid):
            r = memo.get((a, avoid))
            if r is None:
                r, st = set(), [s for s, _ in self.nodes[a].succ]
                while st:
                    x = st.pop()
                    if x in r or x == avoid:
                        continue
                    r.add(x)
                    st += [s for s, _ in self.nodes[x].succ]
                memo[(a, avoid)] = r
            return r
        for n in self.branches:
            if n.kind != "switch":
                continue
            # copies and operations the tested value is computed by
            o = n.d["op"]
            seen, st = set(), [(n.inst, o[1][0])] if o and o[0] in ("c", "m") and len(o[1]) == 1 else []
            while st:
                i, x = st.pop()
                if (i.id, x) in seen or len(seen) > 60:
                    continue
                seen.add((i.id, x))
                ds = list(i.defs.get(x, []))
                if 1 <= x <= i.body.argc and x - 1 < len(i.args):
                    ds.append((None, i.args[x - 1]))
                for nid, d in ds:
                    if d[0] == "ret":
                        st.append((d[1], 0))
                        continue
                    if d[0] == "rv" and d[2][0] in ("use", "bin", "disc", "cast", "un"):
                        pls = self._read_places(d[2])
                    elif d[0] == "op" and d[2] and d[2][0] in ("c", "m"):
                        pls = [d[2][1]]
                    else:
                        continue
                    for pl in pls:
                        if len(pl) < 2:
                            st.append((d[1], pl[0]))
                        elif nid is not None:
                            for t in alts(self.place(d[1], pl, None)):
                                for w in wr.get(t, ()):
                                    if w != nid and w in reach(nid, nid) and n.id in reach(w, nid):
                                        n.d["stale"] = True
    def _read_places(self, r):
        if r[0] == "disc":
            return [r[1]]
        return [o[1] for o in r[1:] if isinstance(o, list) and o and o[0] in ("c", "m")]
    def _all_facts(self, n, l):
        f = self.fact_of(n, l, None)
        if not isinstance(f, list):
            # flow-insensitive value may be a phi; expand alternatives
            f = []
        out = []
        for k, v in f:
            out.append(k)
            if k[0] in ("var", "true") and k[1][0] == "phi":
                for x in k[1][1]:
                    if k[0] == "true":
                        g = self.bool_fact(x, True)
                        if isinstance(g, list):
                            out += [kk for kk, _ in g]
                    elif x[0] != "agg":
                        out.append(("var", x))
        return out

    def _kill(self, n, facts, env):
        """Facts surviving the execution of node n."""
        if not facts:
            return facts
        if n.kind == "call":
            atoms = {n.id}
            paths = self._mut_paths(n, env)
            c = n.d["cal"]
            if c is not None and c.tr == "Iterator" and c.m == "next":
                for x in alts(self.callterm(n, env)):
                    ts = [x]
                    y = x[2][0] if x[0] == "call" and x[1] in ("nextof", "nextpart") else x
                    while y[0] in ("pay", "fld"):
                        y = y[1]
                    if y[0] == "next":
                        ts.append(y)
                    elif y[0] == "agg":
                        ts += [z for _, w in y[3] for z in subterms(w) if z[0] == "next"]
                    ts += [("call", "index", (z[1],), None) for z in ts if z[0] == "next"]
                    for z in ts:
                        facts = {k: v for k, v in facts.items() if not self._hasterm(k, z)}
            look = c is not None and c.m == "get_mut" and c.body is None
            # looking up an entry to change it leaves the set of keys alone
            return {k: v for k, v in facts.items() if not self._mentions(k, atoms, paths) or (look and k[0] == "var" and k[1][0] == "get" and not self._mentions(k[1], atoms, paths[1:]) and not any(self._mentions((k[0], y), atoms, paths) for y in (k[1][2],)))}
        if n.kind == "next":
            for b in [n.d["base"]] + n.d.get("also", []):
                t = ("next", self.desc(b, env))
                i = ("call", "index", (t[1],), None)
                facts = {k: v for k, v in facts.items() if not self._hasterm(k, t) and not self._hasterm(k, i)}
            return facts
        if n.kind == "assign":
            pl = n.d["place"]
            if len(pl) > 1:
                p = self.place(n.inst, pl, env) if False else self._path_of(n.inst, pl, env)
                if p is not None:
                    return {k: v for k, v in facts.items() if not self._hasprefix(k, p)}
        if n.kind == "ret" or n.kind == "bind":
            pl = n.d.get("dest")
            if pl and len(pl) > 1:
                p = self._path_of(n.inst, pl, env)
                if p is not None:
                    return {k: v for k, v in facts.items() if not self._hasprefix(k, p)}
        return facts
    def _path_of(self, inst, pl, env=None):
        """Term of a written place, without reading the override at that place."""
        base = list(pl[:-1])
        last = pl[-1]
        while last == "*" and len(base) > 1:
            last = base.pop()
        t = self.place(inst, base, env) if base else None
        if last == "*":
            return self.local_term(inst, pl[0], env)
        if last[0] == ".":
            f = last[1:].split("|")[0]
            if len(base) > 1 and base[-1][0] == "@":
                v = base[-1][1:]
                t = self.place(inst, base[:-1], env)
                return ("fld", t, f"{v}.{f}") if v not in OKV or short(last.split("|")[1]) not in OKTYPES else ("pay", t)
            return ("fld", t, f)
        if last[0] == "^":
            return self.place(inst, pl, env)
        if last[0] in "[#":
            return t
        return t
    def _mut_paths(self, n, env):
        out = []
        c = n.d["cal"]
        for a in n.d.get("args", []):
            if a[0] in ("c", "m"):
                ty = n.inst.body.locals[a[1][0]] if len(a[1]) == 1 else ""
                if ty.startswith("&mut") or "RefMut<" in ty:
                    t = self.op(n.inst, a, env)
                    out += alts(t)
        return out
    def _mentions(self, k, atoms, paths):
        for t in k[1:]:
            if isinstance(t, tuple):
                for s in subterms(t):
                    if s[0] == "call" and s[3] in atoms and s[3] is not None:
                        return True
                    for p in paths:
                        if s == p:
                            return True
                    if s[0] == "next" and s[1] in paths:
                        return True
        return False
    def _hasterm(self, k, t):
        return any(s == t for x in k[1:] if isinstance(x, tuple) for s in subterms(x))
    def _hasprefix(self, k, p):
        for x in k[1:]:
            if isinstance(x, tuple):
                for s in subterms(x):
                    if s == p:
                        return True
                # written path below the tested one
                q = p
                while q[0] in ("fld", "pay"):
                    q = q[1]
                    if q == x and k[0] in ("eq", "lt"):
                        return True
                    if q == x and p[0] == "pay":
                        return True
        return False

    def _explore(self):
        """Reachable (node, state) pairs."""
        self.pnodes = []         # (node id, env dict)
        self.pdst = {}           # node -> field values it determines
        for k in self.tracked:
            if len(k) == 4:
                i = self.insts[k[1]]
                for nid, _ in i.defs.get(k[2], []):
                    self.pdst.setdefault(nid, []).append((k, -1))
                for j, (nid, _) in enumerate(self._partials(i, k[2])[k[3]]):
                    self.pdst.setdefault(nid, []).append((k, j))
        self.psucc = []          # [(pnode, facts list)]
        index = {}
        def get(nid, env):
            key = (nid, frozenset(env.items()))
            r = index.get(key)
            if r is None:
                r = index[key] = len(self.pnodes)
                self.pnodes.append((nid, env))
                self.psucc.append(None)
                work.append(r)
            return r
        work = []
        percount = {}
        get(self.entry.id, {})
        while work:
            pi = work.pop()
            nid, env = self.pnodes[pi]
            if self.psucc[pi] is not None:
                continue
            n = self.nodes[nid]
            outs = []
            if len(self.pnodes) > 120000 and self.env_cap > 8:
                self.env_cap //= 4
                return self._explore()
            facts = {k: v for k, v in env.items() if k[0] == "f"}
            ch = {k: v for k, v in env.items() if k[0] == "c"}
            fc = {k[1]: v for k, v in facts.items()}
            fc2 = self._kill(n, fc, ch)
            if n.dst is not None:
                k = ("c", n.dst[0].id, n.dst[1])
                if k in self.tracked:
                    ds = n.dst[0].defs[n.dst[1]]
                    ch = dict(ch)
                    ch[k] = next(i for i, (x, _) in enumerate(ds) if x == n.id)
            for k, v in self.pdst.get(nid, ()):
                ch = dict(ch)
                ch[k] = v
            for s, l in n.succ:
                f = self.fact_of(n, l, ch) if l is not None else []
                if f is False:
                    continue
                if f is True:
                    f = []
                nf = fc2
                bad = False
                for k, v in f:
                    if k in nf:
                        if not compatible(nf[k], v):
                            bad = True
                            break
                        if nf[k] != v and k[0] == "var":
                            nf = dict(nf); nf[k] = meet(nf[k], v)
                    elif k in self.fkeys:
                        if nf is fc2:
                            nf = dict(nf)
                        nf[k] = v
                if bad:
                    continue
                lv = self.live[s]
                nd = self._needed(ch, lv)
                ne = {k: v for k, v in ch.items() if k in nd}
                for k, v in nf.items():
                    if ("f", k) in lv:
                        ne[("f", k)] = v
                if percount.get(s, 0) >= self.env_cap:
                    ne2 = {k: v for k, v in ne.items() if k[0] == "c"} if percount.get(s, 0) < 3 * self.env_cap else {}
                    ne = ne2
                before = len(self.pnodes)
                t = get(s, ne)
                if len(self.pnodes) > before:
                    percount[s] = percount.get(s, 0) + 1
                outs.append((t, f))
            self.psucc[pi] = outs
        self.ppred = [[] for _ in self.pnodes]
        for i, o in enumerate(self.psucc):
            for t, f in o or []:
                self.ppred[t].append((i, f))
        self.bynode = {}
        for i, (nid, env) in enumerate(self.pnodes):
            self.bynode.setdefault(nid, []).append(i)
        self.reached = set(self.bynode)

    # ---------------------------------------------------------------- queries
    def env_of(self, p):
        return {k: v for k, v in self.pnodes[p][1].items() if k[0] == "c"}
    def calls(self, pred=None, m=None, tr=None, st=None):
        """Reachable call nodes (external or boundary)."""
        out = []
        for n in self.nodes:
            if n.kind != "call" or n.id not in self.reached or n.d["cal"] is None:
                continue
            c = n.d["cal"]
            if m is not None and c.m != m and not (isinstance(m, (set, tuple, frozenset)) and c.m in m):
                continue
            if tr is not None and c.tr != tr:
                continue
            if st is not None and short(strip_wrappers(c.st)) != st:
                continue
            if pred and not pred(n, c):
                continue
            out.append(n)
        return out
    def enters(self, m=None, pred=None):
        return [n for n in self.nodes if n.kind == "enter" and n.id in self.reached and n.d["cal"] is not None
                and (m is None or n.d["cal"].m == m) and (pred is None or pred(n))]
    def argt(self, n, i, env=None):
        if "xargs" in n.d:
            return self.desc(n.d["xargs"][i], env) if i < len(n.d["xargs"]) else ("undef",)
        return self.op(n.inst, n.d["args"][i], env) if i < len(n.d["args"]) else ("undef",)
    def nargs(self, n):
        return len(n.d.get("xargs") or n.d["args"])
    def res(self, n, env=None):
        return self.callterm(n, env)
    def aggs(self, name=None, variant=None):
        out = []
        for n in self.nodes:
            if n.kind == "assign" and n.id in self.reached:
                r = n.d["rv"]
                if r[0] == "agg" and r[1] == "adt" and (name is None or short(r[2]) == name) and (variant is None or r[3] == variant):
                    out.append(n)
        return out
    def aggt(self, n, env=None):
        return self.rv(n.inst, n.d["rv"], env)
    def writes(self, field=None, adt=None):
        """Reachable assignments to a field (any base): [(node, path term, value term fn)]"""
        out = []
        for n in self.nodes:
            if n.id not in self.reached:
                continue
            if n.kind == "assign":
                pl = n.d["place"]
            elif n.kind in ("ret", "bind", "call"):
                pl = n.d.get("dest")
            else:
                continue
            if not pl or len(pl) < 2:
                continue
            fs = [p for p in pl[1:] if p[0] == "."]
            if not fs:
                continue
            f, a = fs[-1][1:].split("|")
            if field is not None and f != field:
                continue
            if adt is not None and short(a) != adt:
                continue
            out.append(n)
        return out
    def wval(self, n, env=None):
        if n.kind == "assign":
            return self.rv(n.inst, n.d["rv"], env)
        if n.kind == "ret":
            return self.local_term(n.d["sub"], 0, env)
        if n.kind == "bind":
            return self.desc(n.d["desc"], env)
        return self.callterm(n, env)
    def wpath(self, n, env=None):
        return self._path_of(n.inst, n.d["place"] if n.kind == "assign" else n.d["dest"], env)
    def P(self, nodes):
        """Product states of graph nodes."""
        out = []
        for n in nodes:
            out += self.bynode.get(n if isinstance(n, int) else n.id, [])
        return out
    def reach(self, starts, avoid=(), avoid_edge=None, forward=True, skip_start=False):
        """Product states reachable from `starts` avoiding states / edges."""
        avoid = set(avoid)
        seen = set()
        parent = {}
        st = []
        for s in starts:
            if skip_start:
                for t, f in (self.psucc[s] if forward else self.ppred[s]) or []:
                    if t not in avoid and t not in seen and not (avoid_edge and avoid_edge(s if forward else t, t if forward else s, f)):
                        seen.add(t); parent[t] = s; st.append(t)
            elif s not in avoid and s not in seen:
                seen.add(s); parent[s] = None; st.append(s)
        while st:
            x = st.pop()
            for t, f in (self.psucc[x] if forward else self.ppred[x]) or []:
                if t in seen or t in avoid:
                    continue
                if avoid_edge and avoid_edge(x if forward else t, t if forward else x, f):
                    continue
                seen.add(t); parent[t] = x; st.append(t)
        self._parent = parent
        return seen
    def start(self):
        return self.bynode[self.entry.id]
    def ends(self):
        return self.bynode.get(self.end.id, [])
    def path(self, p):
        """Lines of the last search from its start to p."""
        out = []
        while p is not None:
            n = self.nodes[self.pnodes[p][0]]
            out.append(f"{n.inst.body.file}:{n.line}")
            p = self._parent.get(p)
        out.reverse()
        c = []
        for x in out:
            if not c or c[-1] != x:
                c.append(x)
        return c
    # -- path rules
    def precedes(self, a, b):
        """States of b reachable from the entry without passing a."""
        r = self.reach(self.start(), avoid=self.P(a))
        return [p for p in self.P(b) if p in r]
    def guarded(self, b, fact, extra=()):
        """States of b reachable without crossing an edge whose facts satisfy
        `fact(key, value)`. Empty: every path to b is guarded."""
        r = self.reach(self.start(), avoid=self.P(extra), avoid_edge=lambda x, y, f: any(fact(k, v) for k, v in f))
        return [p for p in self.P(b) if p in r]
    def escapes(self, a, b, ends=None, avoid_edge=None):
        """End states reachable from a (exclusive) without passing b."""
        r = self.reach(self.P(a), avoid=self.P(b), skip_start=True, avoid_edge=avoid_edge)
        return [p for p in (ends if ends is not None else self.ends()) if p in r]
    def where(self, n):
        n = self.nodes[n] if isinstance(n, int) else n
        return f"{n.inst.body.file}:{n.line} in {n.inst.body.name}"

def compatible(a, b):
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        if a.startswith("!") or b.startswith("!"):
            return not (a == "!" + b or b == "!" + a)
        return bool(set(a.split("|")) & set(b.split("|")))
    return False
def meet(a, b):
    if isinstance(a, str) and isinstance(b, str) and not a.startswith("!") and not b.startswith("!"):
        s = set(a.split("|")) & set(b.split("|"))
        return "|".join(sorted(s))
    return b if not (isinstance(b, str) and b.startswith("!")) else a

SINKS = {"insert", "push", "push_back", "push_front", "extend", "append", "or_insert", "remove", "replace", "send", "set", "call_mut", "call_once", "call"}
LAZY = {"map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while", "enumerate", "zip", "flat_map", "flatten", "chain", "scan"}
CONSUMERS = {"collect", "for_each", "any", "all", "find", "position", "find_map", "fold", "try_fold", "sum", "count", "max", "min", "last", "unzip",
             "try_for_each", "max_by_key", "min_by_key", "max_by", "min_by", "reduce", "product", "partition"}
OPT_COMB = {"map", "and_then", "flatten", "and", "map_err", "or_else", "or", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "ok_or", "ok_or_else", "is_some_and", "is_ok_and",
            "is_none_or", "map_or", "map_or_else", "inspect", "inspect_err", "filter", "unwrap", "expect", "unwrap_err", "expect_err"}
STD_TRAITS = {"PartialEq", "PartialOrd", "Ord", "Iterator", "Index", "IndexMut", "Add", "Sub", "ExactSizeIterator", "DoubleEndedIterator"}
Inst.closure_env_ok = lambda self: False
