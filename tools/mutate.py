#!/usr/bin/env python3
"""Mutation campaign over the anchored files: which small changes does no quick check notice?
usage: mutate.py WORKTREE LOG SEED [lines per mutant] [file regex]   (run from a copy of /verif; VERIF_REPO=WORKTREE is set here)"""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT, LOG, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3])
PER = int(sys.argv[4]) if len(sys.argv) > 4 else 25
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
SKIP = re.compile(r"tinyxml|writeVtkData.hpp")
files = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
        if p["id"] not in files.setdefault(f, []):
            files[f].append(p["id"])
OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s*[\w(*])(?=[^>]*;|[^>]*\)|[^>]*$)", "<="), (r"(?<![<>=!\-])>(?![>=])(?=\s*[\w(*-])", ">="), (r"<=", "<"), (r">=", ">"),
       (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)\]] )\+(?= [\w(*])", "-"), (r"(?<=[\w)\]] )-(?= [\w(*])", "+"),
       (r"(?<=[\w)\]])\s?\*\s?(?=[\w(])", " + "), (r"(?<=[\w)\]])\s?/\s?(?=[\w(])", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])3(?![\w.])", "2"), (r"(?<![\w])0\.0\b", "1.0"), (r"(?<![\w])1\.0\b", "0.5"),
       (r"\bmin\b(?=\()", "max"), (r"\bmax\b(?=\()", "min"), (r"(?<=\[)(\w+)(?=\])", r"\1 + 1"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \((?!.*\bfor\b)", "if (!!0 && ")]
BAD = re.compile(r"^\s*(//|\*|/\*|#|template|typedef|using|namespace|extern|THROW|MESSAGE|ASSERT|assert|struct|class)|std::cout|std::cerr|printf|<<|THROW|OPM_|static_cast<|std::vector<.*>\s+\w+;")
allm = []
for f in sorted(files):
    if SKIP.search(f) or not RX.search(f):
        continue
    src = open(os.path.join(WT, f), encoding="latin-1").read().split("\n")
    out = []; com = False
    for n, l in enumerate(src):
        if "/*" in l and "*/" not in l: com = True
        if com:
            if "*/" in l: com = False
            continue
        code = l.split("//")[0]
        if not code.strip() or BAD.search(code):
            continue
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                new = code[:m.start()] + m.expand(to) + code[m.end():]
                out.append((f, n, l, new))
        s = code.strip()
        if s.endswith(";") and re.search(r"[^=<>!]=[^=]|\w\(", s) and not re.match(r"(const |int |double |return|bool |size_t |struct |std::)", s) and s.count("(") == s.count(")"):
            out.append((f, n, l, re.match(r"\s*", code).group(0) + ";"))
    r = random.Random("%d %s" % (SEED, f))
    k = max(3, len(src) // PER)
    allm += r.sample(out, min(k, len(out)))
random.Random(SEED).shuffle(allm)
print(len(allm), "mutants", flush=True)
env = dict(os.environ, VERIF_REPO=WT)
cost = {}
log = open(LOG, "a")
cnt = {}
for i, (f, n, old, new) in enumerate(allm):
    path = os.path.join(WT, f)
    orig = open(path, encoding="latin-1").read()
    lines = orig.split("\n")
    lines[n] = new
    open(path, "w", encoding="latin-1").write("\n".join(lines))
    verdict = "SURVIVED"
    try:
        for pid in sorted(files[f], key=lambda q: cost.get(q, 10)):
            t = time.time()
            r = subprocess.run(["python3", os.path.join(V, "check.py"), pid, "quick"], env=env, capture_output=True, text=True)
            cost.setdefault(pid, time.time() - t)
            if "VIOLATION property" in r.stdout:
                verdict = "caught " + pid
                if "build" in r.stdout.lower() and "fail" in r.stdout.lower(): verdict = "nobuild"
                break
            if r.returncode != 0:
                verdict = "nobuild"
                break
    finally:
        open(path, "w", encoding="latin-1").write(orig)
    cnt[verdict.split()[0]] = cnt.get(verdict.split()[0], 0) + 1
    log.write("%s\t%s:%d\t%s\t=>\t%s\n" % (verdict, f, n + 1, old.strip(), new.strip()))
    log.flush()
print(cnt)
