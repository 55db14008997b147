#!/bin/bash
# Validate planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private
# mount namespace): demo passes clean; with the patch the build and the stable tests pass,
# the demo fails, and the property's quick check reports it.  usage: seedtest.sh ID...
if [ -z "$SEEDTEST_IN" ]; then
    SEEDTEST_IN=1 exec unshare -m "$0" "$@"
fi
V=$(cd "$(dirname "$0")/.." && pwd)
S=$(mktemp -d /tmp/seedrepo.XXXXXX)
trap 'umount /repo 2>/dev/null; rm -rf "$S"' EXIT
cp -a /repo/. "$S"/
mount --make-rprivate /
mount --bind "$S" /repo
cd /repo
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do
    D=$V/seeded/$id
    pid=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
    T=$(mktemp -d /tmp/seeddemo.XXXXXX)
    cp -a "$D"/. "$T"/; rm -f "$T"/*.diff "$T"/meta.json
    if [ -z "$FAST" ]; then
    (cd /repo && timeout 300 bash "$T/demo.sh" >"$T/clean.log" 2>&1); r0=$?
    else r0=0; fi
    if ! git apply "$D/patch.diff"; then echo "$id: patch does not apply"; continue; fi
    bash /opt/vp/build.sh >"$T/build.log" 2>&1 || { echo "$id: BUILD FAILED"; tail -5 "$T/build.log"; }
    if [ -z "$FAST" ]; then
    bash /opt/vp/test.sh "$T/t.json" >/dev/null 2>&1
    t=$(python3 -c "
import json;s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$T/t.json'))['passed']);print('ok' if s<=p else 'MISSING %s'%(s-p))")
    else t=skipped; fi
    (cd /repo && timeout 300 bash "$T/demo.sh" >"$T/bug.log" 2>&1); r1=$?
    (cd "$V" && python3 check.py "$pid" quick >"$T/check.log" 2>&1); rc=$?
    v=$(grep -c "VIOLATION property=$pid" "$T/check.log")
    ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$t" = ok -o "$t" = skipped ] && ok=valid
    c=MISSED; [ $rc = 1 ] && [ "$v" -gt 0 ] && c=caught
    echo "$id: $pid $ok $c (demo clean $r0, tests $t, demo bug $r1, check rc $rc)"
    [ $ok = BAD ] && { tail -3 "$T/clean.log"; tail -3 "$T/bug.log"; }
    [ $c = MISSED ] && tail -3 "$T/check.log"
    git checkout -q -- .
    rm -rf "$T"
done
cd /
