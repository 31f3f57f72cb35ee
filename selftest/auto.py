"""Systematic mutation of the code the rules are about: every operator below is
applied at every place of a file (outside its tests); changes that do not
type-check are dropped, and those no check objects to are printed for review.

  auto.py <file relative to the repository> [-n max] [-s stride offset] [-l first last]
"""
import sys, os, re, json, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "..", "lib"))
sys.setrecursionlimit(10000)
import mutate
from concurrent.futures import ProcessPoolExecutor

def nontest(src):
    i = len(src)
    for mt in re.finditer(r"#\[cfg\((all\()?test", src):
        i = min(i, mt.start())
    return src[:i]

def masks(src):
    """Positions inside comments, strings and attributes."""
    bad = bytearray(len(src))
    for mt in re.finditer(r'//[^\n]*|"(?:\\.|[^"\\])*"|#\[[^\]]*\]|^\s*use [^;]*;', src, re.M | re.S):
        for i in range(mt.start(), mt.end()):
            bad[i] = 1
    return bad

TOK = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < (?!\w+>)", [" <= ", " >= "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " <= "]), (r" >= ", [" > ", " < "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif !", ["if "]), (r"(?<=[(|&] )!(?=\w)|(?<=\()!(?=\w)|(?<=^)!(?=\w)", [""]), (r"\bif (?!let|!)(?=\w)", ["if true || ", "if false && "]), (r"\bif (?=!)", ["if true || ", "if false && "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" \+ (?!1\b|')", [" - "]), (r" - (?!1\b)", [" + "]),
    (r"\bcontinue;", ["break;", ""]), (r"\bbreak;", ["continue;", ""]), (r"\breturn;", [""]),
    (r"\b0\b(?!\.)", ["1"]), (r"(?<![.\w])1\b", ["0", "2"]), (r"\.\.=", [".."]), (r"\.rev\(\)", [""]),
    (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(1)"]), (r"\.iter_mut\(\)", [".iter_mut().skip(1)"]), (r"\.into_iter\(\)", [".into_iter().skip(1)", ".into_iter().take(1)"]), (r"\.drain\(\.\.\)", [".drain(..).skip(1)", ".drain(..).take(1)"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"\.front\(", [".back("]), (r"\.back\(", [".front("]), (r"\.pop_front\(", [".pop_back("]), (r"\.push_back\(", [".push_front("]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
    (r"\.next\(\)", [".last()"]), (r"\.checked_add\(", [".checked_sub("]), (r"\.saturating_sub\(", [".saturating_add("]), (r"\.take\(\)", [".clone()"]),
    (r"\.insert\(", [".remove(&"]), (r"(?<=\.)contains_key\(", ["is_empty() || true == !std::mem::discriminant(&Some("][:0]),
    (r"Some\((?=\w)", [][:0]), (r"\bmem::take\(&mut ([\w.]+)\)", [r"\1.clone()"]),
    (r"\bOk\(\(\)\)", [][:0]),
    (r"\(([\w.]+), ([\w.]+)\)", [r"(\2, \1)"]), (r"\(([\w.&]+), ([\w.&]+), ([\w.&]+)\)", [r"(\2, \1, \3)", r"(\1, \3, \2)"]),
    (r"\.clone\(\)\.unwrap_or_default\(\)", [][:0]), (r"\.unwrap_or\(", [][:0]),
]
def statements(src, bad):
    """Statements ending in ; that can be dropped: [(start, end)]."""
    out = []
    for mt in re.finditer(r"(?m)^([ \t]+)(?!let\b|use\b|pub\b|mod\b|type\b|const\b|return\b|\}|\)|//|\.|fn\b|impl\b)(?=[\w*(])", src):
        i = mt.end()
        if bad[i]:
            continue
        prev = src[:mt.start()].rstrip()
        if not prev or prev[-1] not in "{};":
            # comment lines before
            pl = prev.split("\n")[-1].strip()
            if not pl.startswith("//"):
                continue
        depth, j = 0, i
        while j < len(src):
            if bad[j]:
                j += 1; continue
            ch = src[j]
            if ch in "([{":
                depth += 1
            elif ch in ")]}":
                depth -= 1
                if depth < 0:
                    break
                if depth == 0 and ch == "}" and re.match(r"(if|for|while|match|loop)\b", src[i:]) and not re.match(r"\s*else\b", src[j + 1:]):
                    out.append((i, j + 1)); break
            elif ch == ";" and depth == 0:
                out.append((i, j + 1)); break
            j += 1
    return out
def variants_in(src):
    """Enum paths used in the file: enum -> {variant}."""
    d = {}
    for mt in re.finditer(r"\b([A-Z]\w+)::([A-Z]\w+)\b", src):
        d.setdefault(mt.group(1), set()).add(mt.group(2))
    return d
def cases(file):
    full = open(os.path.join(mutate.REPO, file)).read()
    src = nontest(full)
    bad = masks(src)
    out = []
    line = lambda i: src.count("\n", 0, i) + 1
    def add(a, b, new, what):
        if src[a:b] == new:
            return
        out.append((line(a), f"{file}:{line(a)} {what}", full[:a] + new + full[b:]))
    for pat, subs in TOK:
        for mt in re.finditer(pat, src, re.M):
            if bad[mt.start()] or bad[min(mt.end(), len(src)) - 1]:
                continue
            for s in subs:
                new = mt.expand(s) if "\\" in s else s
                add(mt.start(), mt.end(), new, f"`{mt.group(0)}` -> `{new}`")
    for a, b in statements(src, bad):
        add(a, b, "", "dropped `" + " ".join(src[a:b].split())[:110] + "`")
    for e, vs in variants_in(src).items():
        if len(vs) < 2:
            continue
        for mt in re.finditer(r"\b" + e + r"::(" + "|".join(map(re.escape, vs)) + r")\b(?!\()", src):
            if bad[mt.start()]:
                continue
            o = sorted(vs)
            alt = o[(o.index(mt.group(1)) + 1) % len(o)]
            add(mt.start(), mt.end(), f"{e}::{alt}", f"{mt.group(0)} -> {e}::{alt}")
    # a field initialiser replaced by a default
    for mt in re.finditer(r"(?m)^(\s+)(\w+)(: [^\n{(]+|: [^\n]*\)[^\n{]*)?,$", src):
        if bad[mt.start(2)]:
            continue
        add(mt.start(), mt.end(), f"{mt.group(1)}{mt.group(2)}: Default::default(),", f"`{mt.group(0).strip()}` -> default")
    # the error of a call is ignored
    for mt in re.finditer(r"(?m)^(\s+)(self\.[^\n;]*|\w+\.[^\n;=]*)\?;$", src):
        add(mt.start(), mt.end(), f"{mt.group(1)}let _ = {mt.group(2)};", f"error of `{mt.group(2)[:60]}` ignored")
    return out

def run(a):
    i, what, file, text, base = a
    # run_case replaces text: here the whole file
    return i, what, mutate.run_case((what, file, [(WHOLE, text)], base))
WHOLE = None

def run_whole(a):
    i, what, file, text, base = a
    full = open(os.path.join(mutate.REPO, file)).read()
    # a minimal unique replacement
    p = 0
    while p < min(len(full), len(text)) and full[p] == text[p]:
        p += 1
    q = 0
    while q < min(len(full), len(text)) - p and full[-1 - q] == text[-1 - q]:
        q += 1
    name, err, res = mutate.run_case((what, file, [(full, text)], base))
    return i, what, err, res

def main():
    args = sys.argv[1:]
    file = args[0]
    n = int(args[args.index("-n") + 1]) if "-n" in args else None
    cs = cases(file)
    if "-l" in args:
        k = args.index("-l"); lo, hi = int(args[k + 1]), int(args[k + 2])
        cs = [c for c in cs if lo <= c[0] <= hi]
    if n and len(cs) > n:
        random.Random(int(os.environ.get("SEED", "1"))).shuffle(cs)
        cs = cs[:n]
    cs.sort(key=lambda c: c[0])
    base, tmp = mutate.base_facts()
    tot = {"caught": 0, "survived": 0, "nocompile": 0, "error": 0}
    jobs = [(i, c[1], file, c[2], base) for i, c in enumerate(cs)]
    with ProcessPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for i, what, err, res in ex.map(run_whole, jobs):
            if err.startswith("DOES NOT COMPILE"):
                tot["nocompile"] += 1
            elif err:
                tot["error"] += 1
                print("ERROR   ", what, err[:400], flush=True)
            elif res:
                tot["caught"] += 1
                if "-v" in args:
                    print("caught  ", what, sorted(res), flush=True)
            else:
                tot["survived"] += 1
                print("SURVIVED", what, flush=True)
    print(file, tot)
    if tmp:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    main()
