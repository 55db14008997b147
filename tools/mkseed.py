"""Create /verif/seeded/<id>/ from an edit of /repo's sources and a demonstration program."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken.  Runs in the repository after its build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O0 -w -I. -I_build -DHAVE_CONFIG_H -I/usr/include/suitesparse "$D/demo.cpp" _build/lib/libopmcore.a \\
    -lboost_date_time -lboost_filesystem -lboost_system -lumfpack -lamd -llapack -lblas -lm -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''


def seed(sid, pid, edits, needs, breaks, cpp):
    """edits: [(path, old, new)]; each old text occurs exactly once (or give (path, old, new, n-th))."""
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
        for e in edits:
            path, old, new = e[:3]
            p = os.path.join(t, "w", path)
            s = open(p, encoding="latin-1").read()
            if len(e) == 3:
                assert s.count(old) == 1, (sid, path, old, s.count(old))
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert len(parts) > e[3] + 1
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            open(p, "w", encoding="latin-1").write(s)
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    open(os.path.join(d, "demo.cpp"), "w").write(cpp.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
