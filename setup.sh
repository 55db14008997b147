#!/bin/bash
# Pre-compile the library and every harness (the checks reuse what is still up to date).
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys, os
sys.path.insert(0, "tools")
import build, glob, concurrent.futures as cf
srcs = build.lib_sources()
mains = sorted(glob.glob("harness/*.cpp"))
with cf.ThreadPoolExecutor(build.JOBS) as pool:
    os.makedirs(build.OBJ, exist_ok=True)
    fs = [pool.submit(build.compile_one, s) for s in srcs]
    fs += [pool.submit(build.compile_one, os.path.join(build.HARN, os.path.basename(m))) for m in mains]
    for f in fs:
        try:
            f.result()
        except build.BuildError as e:
            print(e)
for m in mains:
    try:
        build.build_harness(os.path.basename(m)[:-4])
    except build.BuildError as e:
        print(e)
P
