"""Undoes renames before the rules run.

The rules name types, fields, variants and functions of the repository.  A
rename changes no behaviour, so facts are first brought back to the names of
`names.json` (recorded from the tree the rules were written for):
a recorded item that is missing is identified with an unrecorded item of the
same place and shape (a field of the same type in the same struct, a variant
with the same payload, a type with the same fields in the same module, a
function of the same type and signature).  Nothing is renamed unless an item is
missing and exactly one candidate takes its place; what cannot be matched stays
as it is, and the rule that needs the missing name reports it.
"""
import json, os, re

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
FOREIGN = ("core::", "std::", "alloc::", "hashbrown::")

def keep(p):
    return not p.startswith(FOREIGN) and "__mock" not in p and "::Mock" not in p and not p.startswith("Mock") and "{" not in p

def shape(d):
    """What is recorded of one crate's facts."""
    ty = d["types"]
    fns = []
    for b in d["bodies"]:
        if b["kind"] == "Closure" or "{closure" in b["path"] or "__mock" in b["path"] or b.get("mac"):
            continue
        fns.append([b["path"], b.get("m") or b["path"].split("::")[-1], ty[b["self"]] if "self" in b else "",
                    b.get("tr") or b.get("deftr") or "", [ty[i] for i in b["locals"][:b["argc"] + 1]]])
    return {"adts": {k: [v["enum"], [[x[0], x[2], x[3]] for x in v["variants"]]] for k, v in d["adts"].items() if keep(k)},
            "fns": fns}

def unique(missing, fresh, keys):
    """Pairs items of the two lists by the first key function under which both
    have exactly one (or equally many, in order) candidates."""
    out = []
    missing, fresh = list(missing), list(fresh)
    for key in keys:
        for k in {repr(key(x)) for x in missing}:
            a = [x for x in missing if repr(key(x)) == k]
            b = [x for x in fresh if repr(key(x)) == k]
            if a and len(a) == len(b):
                out += list(zip(a, b))
                missing = [x for x in missing if x not in a]
                fresh = [x for x in fresh if x not in b]
    return out

def load(text, shared):
    """Facts of one crate under the recorded names; `shared` carries renamed
    functions from crate to crate."""
    d = json.loads(text)
    base = BASE().get(d["crate"])
    if not base:
        return d
    text2 = types_back(text, d, base, shared)
    if text2 is not text:
        text = text2
        d = json.loads(text)
    members(d, base)
    functions(d, base, shared)
    return d

_base = None
def BASE():
    global _base
    if _base is None:
        try:
            _base = json.load(open(FILE))
        except OSError:
            _base = {}
    return _base

def mod(p):
    return p.rsplit("::", 1)[0] if "::" in p else ""

def last(p):
    return p.rsplit("::", 1)[-1]

def types_back(text, d, base, shared):
    cur = shape(d)
    miss = [k for k in base["adts"] if k not in cur["adts"]]
    new = [k for k in cur["adts"] if k not in base["adts"]]
    # a crate mentions only the foreign types it uses: not mentioning one is no rename
    local = lambda k: "::" in k and not re.match(r"^(tcp_\w+|willow_\w+)::", k)
    miss_l = [k for k in miss if local(k)]
    pairs = []
    if miss_l and new:
        b, c = base["adts"], cur["adts"]
        get = lambda k: b[k] if k in miss else c[k]
        names = lambda k: [get(k)[0], [[v[0] if get(k)[0] else "", v[1]] for v in get(k)[1]]]
        loose = lambda k: [get(k)[0], [[v[0] if get(k)[0] else "", len(v[1])] for v in get(k)[1]]]
        small = lambda k: sum(len(v[1]) for v in get(k)[1]) + (len(get(k)[1]) if get(k)[0] else 0) < 2
        pairs = unique(miss_l, [k for k in new if local(k)],
                       [lambda k: (last(k), names(k)), lambda k: (mod(k), names(k)), lambda k: (mod(k), loose(k)),
                        lambda k: last(k), lambda k: ("" if not small(k) else k, names(k))])
    # traits
    bt = {f[3] for f in base["fns"] if f[3] and local(f[3]) and keep(f[3])}
    ct = {f[3] for f in cur["fns"] if f[3] and local(f[3]) and keep(f[3])}
    bm = lambda t, s: (s, sorted({f[1] for f in (base if t in bt else cur)["fns"] if f[3] == t}))
    pairs += unique(sorted(bt - ct), sorted(ct - bt), [lambda t: bm(t, mod(t)), lambda t: bm(t, "")])
    ren = dict((n, o) for o, n in pairs)
    for n, o in list(ren.items()):
        shared.setdefault("types", {})[d["crate"] + "::" + n] = d["crate"] + "::" + o
    ren.update(shared.get("types", {}))
    ren = {n: o for n, o in ren.items() if n in text}
    if not ren:
        return text
    pat = re.compile(r"(?<![\w:])(" + "|".join(re.escape(n) for n in sorted(ren, key=len, reverse=True)) + r")(?!\w)")
    text = pat.sub(lambda m: ren[m.group(1)], text)
    # the variant of a struct carries the name of the struct
    d = json.loads(text)
    for n, o in ren.items():
        a = d["adts"].get(o)
        if a and not a["enum"] and a["variants"] and a["variants"][0][0] == last(n) != last(o):
            a["variants"][0][0] = last(o)
            def walk(x):
                if isinstance(x, list):
                    if len(x) == 6 and x[0] == "agg" and x[2] == o and x[3] == last(n):
                        x[3] = last(o)
                    for y in x:
                        if isinstance(y, (list, dict)):
                            walk(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        if isinstance(y, (list, dict)):
                            walk(y)
            walk(d["bodies"])
    return json.dumps(d)

def members(d, base):
    """Fields and variants."""
    variants, fields = {}, {}
    for k, v in d["adts"].items():
        b = base["adts"].get(k)
        if not b or b[0] != v["enum"]:
            continue
        pos = {}
        if v["enum"]:
            bn, cn = [x[0] for x in b[1]], [x[0] for x in v["variants"]]
            miss = [("b", i, x) for i, x in enumerate(b[1]) if x[0] not in cn]
            new = [("c", i, [x[0], x[2], x[3]]) for i, x in enumerate(v["variants"]) if x[0] not in bn]
            for o, n in unique(miss, new, [lambda x: (x[1], x[2][1:]), lambda x: x[2][1:], lambda x: x[1] if len(bn) == len(cn) else x]):
                variants[(k, n[2][0])] = o[2][0]
        for x in v["variants"]:
            name = variants.get((k, x[0]), x[0])
            bx = [y for y in b[1] if y[0] == name]
            if not bx or [*bx[0][1]] == [*x[2]]:
                continue
            bx = bx[0]
            miss = [(i, f, t) for i, (f, t) in enumerate(zip(bx[1], bx[2])) if f not in x[2]]
            new = [(i, f, t) for i, (f, t) in enumerate(zip(x[2], x[3])) if f not in bx[1]]
            one = len(miss) == len(new) == 1
            for o, n in unique(miss, new, [lambda y: (y[0], y[2]), lambda y: y[2], lambda y: "" if one else y]):
                fields[(k, n[1])] = o[1]
    if not variants and not fields:
        return
    for (k, n), o in variants.items():
        for x in d["adts"][k]["variants"]:
            if x[0] == n:
                x[0] = o
    for (k, n), o in fields.items():
        for x in d["adts"][k]["variants"]:
            x[2][:] = [o if f == n else f for f in x[2]]
    fren = {f".{n}|{k}": f".{o}|{k}" for (k, n), o in fields.items()}
    vren = {}
    for (k, n), o in variants.items():
        vren.setdefault(k, {})[n] = o
    names = {n for m in vren.values() for n in m}
    def places(x):
        """Renames inside a list that may be a projection."""
        for i, y in enumerate(x):
            if isinstance(y, str):
                if y in fren:
                    x[i] = fren[y]
                elif y[:1] == "@" and y[1:] in names:
                    # the downcast is followed by the field, which names the type
                    nxt = x[i + 1] if i + 1 < len(x) and isinstance(x[i + 1], str) else ""
                    k = nxt.split("|", 1)[1] if "|" in nxt else None
                    cand = [vren[k]] if k in vren else list(vren.values()) if k is None else []
                    for m in cand:
                        if y[1:] in m:
                            x[i] = "@" + m[y[1:]]
                            break
            elif isinstance(y, (list, dict)):
                walk(y)
    def walk(x):
        if isinstance(x, list):
            if len(x) == 6 and x[0] == "agg" and x[1] == "adt":
                if x[2] in vren and x[3] in vren[x[2]]:
                    x[3] = vren[x[2]][x[3]]
                x[4] = [fields.get((x[2], f), f) if isinstance(f, str) else f for f in x[4]] if isinstance(x[4], list) else x[4]
            places(x)
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    for b in d["bodies"]:
        walk(b)

def functions(d, base, shared):
    cur = shape(d)
    bp, cp = {f[0] for f in base["fns"]}, {f[0] for f in cur["fns"]}
    miss = [f for f in base["fns"] if f[0] not in cp]
    new = [f for f in cur["fns"] if f[0] not in bp]
    ids = shared.setdefault("fns", {})       # id -> recorded name
    trs = shared.setdefault("methods", {})   # (trait, name) -> recorded name
    paths = {}
    owner = lambda f: f[0].rsplit("::", 1)[0]
    def argc(f):
        return len(f[4])
    pairs = unique(miss, new, [lambda f: (owner(f), f[4]), lambda f: (owner(f), argc(f)) if f[3] else f])
    pairs = [(o, n) for o, n in pairs if o[1] != n[1]]
    back = {n[0]: o for o, n in pairs}
    for o, n in pairs:
        paths[n[0]] = o
        if n[3]:
            trs[(n[3], n[1])] = o[1]
            trs[(d["crate"] + "::" + n[3], n[1])] = o[1]
    for b in d["bodies"]:
        o = back.get(b["path"])
        if o:
            ids[b["id"]] = o[1]
            b["path"] = o[0]
            if "m" in b:
                b["m"] = o[1]
        else:
            for n, o in back.items():
                if b["path"].startswith(n + "::{"):
                    b["path"] = o[0] + b["path"][len(n):]
    for i in d["impls"]:
        if trs and any(k[0] == i["tr"] for k in trs):
            i["ms"] = [[trs.get((i["tr"], m[0]), m[0]), *m[1:]] for m in i["ms"]] if isinstance(i["ms"], list) else {trs.get((i["tr"], m), m): x for m, x in i["ms"].items()}
    if not ids and not trs:
        return
    def walk(x):
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (list, dict)):
                    walk(y)
        elif isinstance(x, dict):
            if "id" in x and "p" in x:
                o = ids.get(x["id"]) or (trs.get((x.get("tr"), x.get("m"))) if x.get("tr") else None)
                if o:
                    x["p"] = x["p"].rsplit("::", 1)[0] + "::" + o if "::" in x["p"] else o
                    if "m" in x:
                        x["m"] = o
                    if "rp" in x and "::" in x["rp"]:
                        x["rp"] = x["rp"].rsplit("::", 1)[0] + "::" + o
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    for b in d["bodies"]:
        walk(b["bb"])

if __name__ == "__main__":
    # records the names: python3 names.py <directory of facts>
    import sys, glob
    out = {}
    for f in sorted(glob.glob(os.path.join(sys.argv[1], "*.json"))):
        d = json.load(open(f))
        if isinstance(d, dict) and "bodies" in d:
            out[d["crate"]] = shape(d)
    with open(FILE, "w") as f:
        json.dump(out, f, separators=(",", ":"), sort_keys=True)
