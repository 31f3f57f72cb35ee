"""Loads the JSON facts written by the rustc driver and offers program-level
queries (bodies, trait implementations, types)."""
import json, os, re
import names

DERIVES = {"Debug", "Clone", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Copy", "Message", "Enumeration", "Oneof"}

def short(path):
    """Last segment of a type or trait path, without generics or references."""
    p = path.strip()
    while p.startswith(("&", "*")):
        p = re.sub(r"^(&(\'\w+ )?(mut )?|\*(const|mut) )", "", p).strip()
    p = re.sub(r"^dyn ", "", p)
    out, depth = [], 0
    for ch in p:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    s = "".join(out)
    s = s.split(" + ")[0]
    return s.split("::")[-1].strip()

WRAPPERS = ("Box", "Rc", "Arc", "RefCell", "Ref", "RefMut", "Mutex", "MutexGuard", "Pin")

def strip_wrappers(ty):
    """Type inside Box/Rc/RefCell/... and references."""
    t = ty.strip()
    while True:
        u = re.sub(r"^(&(\'\w+ )?(mut )?|\*(const|mut) )", "", t).strip()
        m = re.match(r"^([\w:]+)<(.*)>$", u)
        if m and m.group(1).split("::")[-1] in WRAPPERS:
            inner = m.group(2)
            inner = re.sub(r"^'\w+, ", "", inner)
            # first generic argument
            d = 0
            for i, ch in enumerate(inner):
                if ch == "<":
                    d += 1
                elif ch == ">":
                    d -= 1
                elif ch == "," and d == 0:
                    inner = inner[:i]
                    break
            u = inner
        if u == t:
            return t
        t = u

class Body:
    __slots__ = ("id", "path", "kind", "file", "line", "end", "argc", "parent", "mac", "selfty", "m", "tr", "deftr",
                 "vis", "locals", "vars", "bb", "crate", "defs", "children")
    def __init__(self, d, crate, files, types, repo):
        self.id = d["id"]; self.path = d["path"]; self.kind = d["kind"]
        f = files[d["file"]]
        self.file = os.path.relpath(f, repo) if f.startswith(repo) else f
        self.line = d["line"]; self.end = d["end"]; self.argc = d["argc"]
        self.parent = d.get("parent"); self.mac = d.get("mac", [])
        self.selfty = types[d["self"]] if "self" in d else None
        self.m = d.get("m"); self.tr = d.get("tr"); self.deftr = d.get("deftr")
        self.vis = d["vis"]
        self.locals = [types[i] for i in d["locals"]]
        self.vars = {int(k): v for k, v in d["vars"].items()}
        self.bb = d["bb"]; self.crate = crate; self.defs = None
        self.children = []
    @property
    def derived(self):
        return bool(self.mac) and self.mac[-1] in DERIVES
    @property
    def name(self):
        n = self.m or self.path.split("::")[-1]
        if self.kind == "Closure":
            n = self.path.split("::")[-2] + "::{closure}" if "::" in self.path else self.path
        if self.selfty:
            s = short(self.selfty)
            return f"<{s} as {short(self.tr)}>::{n}" if self.tr else f"{s}::{n}"
        if self.deftr:
            return f"{short(self.deftr)}::{n}"
        return n

class Prog:
    def __init__(self, repo):
        self.repo = repo
        self.bodies = {}
        self.adts = {}
        self.impls = []          # (trait path, self type string, {method: body id}, file, derived)
        self.tainted = []
        self.crates = []
        self.failed = {}
        self.shared = {}         # renamed items, see names.py
    def load(self, path):
        with open(path) as f:
            d = names.load(f.read(), self.shared)
        c = d["crate"]; types = d["types"]; files = d["files"]
        self.crates.append(c)
        self._types = types
        for k, v in d["adts"].items():
            self.adts.setdefault(self.qual(c, k), v)
        for b in d["bodies"]:
            self._resolve(b["bb"], types)
            body = Body(b, c, files, types, self.repo)
            self.bodies[body.id] = body
        for i in d["impls"]:
            f = files[i["file"]]
            self.impls.append((i["tr"], types[i["self"]], dict(i["ms"]), os.path.relpath(f, self.repo) if f.startswith(self.repo) else f, bool(i["mac"]) and i["mac"][-1] in DERIVES))
        self.tainted += [(c, t[0], t[1]) for t in d["tainted"]]
    def qual(self, c, k):
        return k
    def _resolve(self, bbs, types):
        """Replaces type indices of callees and constants by strings, in place."""
        def op(o):
            if o[0] == "fn":
                cal = o[1]
                cal["ga"] = [types[g] for g in cal["ga"]]
                if "st" in cal:
                    cal["st"] = types[cal["st"]]
            elif o[0] == "k" and isinstance(o[2], int):
                o[2] = types[o[2]]
        def rv(r):
            k = r[0]
            if k in ("use", "rep"):
                op(r[1])
            elif k == "cast":
                op(r[2]); r[3] = types[r[3]]
            elif k == "bin":
                op(r[2]); op(r[3])
            elif k == "un":
                op(r[2])
            elif k == "agg":
                for o in r[5]:
                    op(o)
        for bb in bbs:
            if bb is None:
                continue
            for s in bb[0]:
                if len(s) >= 2:
                    rv(s[1])
            t = bb[1]
            if t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
            elif t[0] == "switch":
                op(t[1]); t[5] = types[t[5]]
            elif t[0] == "assert":
                op(t[1])
            elif t[0] == "yield":
                op(t[2])
    def link(self):
        for b in self.bodies.values():
            if b.parent and b.parent in self.bodies:
                self.bodies[b.parent].children.append(b)
    # ---- queries
    def find(self, selfty=None, trait=None, method=None, name=None, file=None, path=None):
        out = []
        for b in self.bodies.values():
            if b.kind == "Closure":
                continue
            if selfty is not None and (b.selfty is None or short(b.selfty) != selfty):
                continue
            if trait is not None and short(b.tr or b.deftr or "") != trait:
                continue
            if method is not None and b.m != method:
                continue
            if name is not None and b.path.split("::")[-1] != name:
                continue
            if file is not None and not b.file.endswith(file):
                continue
            if path is not None and path not in b.path:
                continue
            out.append(b)
        return out
    def impls_of(self, trait, method):
        """Local implementations (non-derived) of a trait method."""
        out = []
        for tr, st, ms, f, der in self.impls:
            if short(tr) == trait and method in ms and ms[method] in self.bodies and not der:
                out.append(self.bodies[ms[method]])
        if not out:
            out = [b for b in self.bodies.values() if b.deftr and short(b.deftr) == trait and b.m == method]
        return out
    def adt(self, sh):
        for k, v in self.adts.items():
            if short(k) == sh:
                return v
        return None
    def local_adts(self):
        r = getattr(self, "_ladts", None)
        if r is None:
            r = self._ladts = {short(k) for k in self.adts if k.split("::")[0] not in ("core", "std", "alloc", "hashbrown")}
        return r
    def adt_paths(self, sh):
        return [k for k in self.adts if short(k) == sh]
