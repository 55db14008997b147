#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree by exhaustive exploration."""
import json, os, re, subprocess, sys, time, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build
from registry import CHECKS

VERIF = build.VERIF
NSH = 8


def known_for(pid):
    pats, what = [], {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                pats.append(m.group(2))
                what[m.group(2)] = m.group(3)
    except OSError:
        pass
    return pats, what


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:"
           "max_malloc_fill_size=100000000:malloc_fill_byte=203:detect_stack_use_after_return=0:"
           "handle_abort=1:symbolize=1", LC_ALL="C", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           UBSAN_OPTIONS="print_stacktrace=1")


def run_one(exe, args, out, scratch, limit):
    os.makedirs(scratch, exist_ok=True)
    err = open(out + ".err", "w+b")
    p = subprocess.Popen([exe] + args + ["--out", out, "--scratch", scratch], env=ENV,
                         stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, cwd=scratch)
    return p, err


def collect(p, err, out, limit_at):
    try:
        p.wait(max(1, limit_at - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, "timeout", ""
    if p.returncode == 0 and os.path.exists(out):
        return json.load(open(out)), None, ""
    err.seek(0, 2)
    n = err.tell()
    err.seek(max(0, n - 6000))
    tail = err.read().decode("latin-1")
    try:
        cur = open(out + ".cur", "rb").read().split(b"\0")[0].decode("latin-1")
    except OSError:
        cur = "?"
    return None, "crash", (cur, p.returncode, tail)


def summary_of(tail):
    for pat in (r"Assertion .*", r"ERROR: AddressSanitizer: .*", r"VH-WATCHDOG.*", r"terminate called.*", r"runtime error: .*"):
        m = re.search(pat, tail)
        if m:
            return m.group(0)[:200]
    t = [l for l in tail.splitlines() if l.strip()]
    return t[-1][:200] if t else "no output"


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    pats, what = known_for(pid)
    tot = {"states": 0, "transitions": 0, "cases": 0}
    viol, samples, outcomes, khit, parts = [], [], set(), {}, {}
    limit_at = t0 + (780 if tier == "quick" else 24 * 3600)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=build.BUILD)
    harnesses = spec["harness"] if isinstance(spec["harness"], list) else [spec["harness"]]
    rc_err = None
    try:
        kf = os.path.join(work, "known")
        open(kf, "w").write("\n".join(pats) + "\n")
        for h in harnesses:
            try:
                exe = build.build_harness(h)
            except build.BuildError as e:
                print("ERROR: %s" % e)
                rc_err = "build"
                break
            base = ["--tier", tier, "--known", kf]
            running = []
            for i in range(NSH):
                out = os.path.join(work, "%s.%d" % (h, i))
                p, err = run_one(exe, base + ["--shard", "%d/%d" % (i, NSH)], out,
                                 os.path.join(work, "s%d" % i), limit_at)
                running.append((p, err, out))
            hs = {"states": 0, "transitions": 0}
            for p, err, out in running:
                d, kind, info = collect(p, err, out, limit_at)
                if kind == "timeout":
                    rc_err = "timeout"
                    continue
                if kind == "crash":
                    cur, code, tail = info
                    viol.append((h, cur, "crash: exit status %d: %s" % (code, summary_of(tail)), tail))
                    continue
                for k in tot:
                    tot[k] += d[k]
                for k in hs:
                    hs[k] += d[k]
                for cid, text in d["violations"]:
                    viol.append((h, cid, text, ""))
                for k, v in d["known"].items():
                    khit.setdefault(k, [0, v[1]])
                    khit[k][0] += v[0]
                samples += d["samples"]
                outcomes.update(d["outcomes"])
            parts[h] = hs
            if viol:
                # replay the first violation on its own
                h0, cid, text, tail = viol[0]
                out = os.path.join(work, "replay")
                p, err = run_one(exe, base + ["--only", cid], out, os.path.join(work, "sr"), limit_at)
                d, kind, info = collect(p, err, out, limit_at)
                again = kind == "crash" or (d is not None and d["violations"])
                rd = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, pid + ".json")
                json.dump({"property": pid, "harness": h0, "case": cid, "what": text, "stderr": tail[-3000:],
                           "reproduced_alone": bool(again),
                           "replay_cmd": "python3 check.py %s replay '%s'" % (pid, cid)}, open(rp, "w"), indent=1)
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for pt in pats:
        if pt in khit:
            print("KNOWN-FINDING: property=%s %s (%d case(s))" % (pid, what[pt], khit[pt][0]))
    cov = {"states": tot["states"], "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["cases"],
           "distinct_outcomes": len(outcomes),
           "samples": samples[:6] or ["(none)"], "rule": spec["rule"],
           "exhaustive": rc_err is None and not viol, "per_harness": parts,
           "explanation": "Every case within the bounds is executed on the real code compiled from /repo; "
                          "states = enumerated cases (inputs, operation histories or their prefixes), "
                          "transitions = calls into the code whose result was compared with the reference."}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
               "assumptions": spec.get("assumptions", []), "violations": len(viol),
               "wall_s": round(time.time() - t0, 2)}, open(ev, "w"), indent=1)
    if viol:
        for h, cid, text, tail in viol[:5]:
            print("  case %s: %s" % (cid, text))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if rc_err:
        print("ERROR: no answer (%s)" % rc_err)
        return 2
    print("OK property=%s states=%d transitions=%d outcomes=%d wall=%.1fs" %
          (pid, tot["states"], tot["transitions"], len(outcomes), time.time() - t0))
    return 0


def replay():
    pid, cid = sys.argv[1], sys.argv[3]
    spec = CHECKS[pid]
    harnesses = spec["harness"] if isinstance(spec["harness"], list) else [spec["harness"]]
    work = tempfile.mkdtemp(dir=build.BUILD)
    bad = 0
    for h in harnesses:
        exe = build.build_harness(h)
        out = os.path.join(work, "o")
        p, err = run_one(exe, ["--tier", os.environ.get("VERIF_TIER", "quick"), "--only", cid], out, work, 0)
        d, kind, info = collect(p, err, out, time.time() + 600)
        if kind:
            print(kind, info[2] if info else "")
            bad = 1
        else:
            for v in d["violations"]:
                print(v)
                bad = 1
    shutil.rmtree(work, ignore_errors=True)
    return bad


if __name__ == "__main__":
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        sys.exit(replay())
    sys.exit(main())
