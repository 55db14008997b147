"""Write DESIGN.md from tools/design.md.in, the registry, known_findings.txt and seeded/."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
from design_notes import NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
stats = {}
if os.path.exists(os.path.join(T, "design_stats.json")):
    stats = json.load(open(os.path.join(T, "design_stats.json")))
out, tot = [], 0.0
for p in sorted(registry.PROPS, key=lambda p: p["id"]):
    i = p["id"]
    c = registry.CHECKS.get(i)
    if not c:
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(" ".join(p["statement"].split()) + "\n")
    out.append("*Enumerated*: %s. *Ranging over*: %s (%s)." % (c["rule"].rstrip("."), p["quantifier"].get("text", "").rstrip("."), ", ".join(p["quantifier"]["over"])))
    out.append("*Why tests cannot settle it*: " + " ".join(p["why_tests_cant"].split()))
    if i in NOTES:
        out.append(NOTES[i])
    s = stats.get(i, {})
    cost = []
    for t in ("quick", "thorough"):
        if t in s:
            cost.append("%s %s states, %.0f s" % (t, format(s[t]["states"], ","), max(1, s[t]["wall"])))
    if "quick" in s:
        tot += s["quick"]["wall"]
    if cost:
        out.append("*Cost*: " + "; ".join(cost) + ".")
    out.append("")
props = "\n".join(x for x in out if x is not None)
fixed, known = [], []
for l in open(os.path.join(V, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        _, pid, h, what = l.split(" ", 3)
        fixed.append("| %s | %s | %s |" % (pid.split("=")[1], h[:10], what))
    elif l.startswith("known:"):
        known.append("* " + l[7:])
fixed = "| check | commit | what failed |\n|---|---|---|\n" + "\n".join(sorted(fixed, key=lambda r: r[:7]))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
seeds = "| caught by | change | needs |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % r for r in sorted(rows))
mut = open(os.path.join(T, "design_mutation.md")).read() if os.path.exists(os.path.join(T, "design_mutation.md")) else ""
t = open(os.path.join(T, "design.md.in")).read()
for k, v in (("PROPS", props), ("FIXED", fixed), ("KNOWN", "\n".join(known)), ("SEEDS", seeds), ("MUTATION", mut),
             ("QUICKTOTAL", "%.0f minutes" % (tot / 60) if tot else "a few minutes")):
    t = t.replace("@%s@" % k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
