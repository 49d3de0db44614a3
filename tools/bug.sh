#!/bin/bash
# tools/bug.sh ID [check]: validate /verif/seeded/ID in a scratch copy of /repo (builds, stable tests pass, demo 0 before / nonzero after);
# with "check": also run the property's check against the scratch copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; D=$V/seeded/$ID; W=/tmp/rkbug_$ID; rm -rf "$W"; mkdir -p "$W/vp"
git -C /repo archive HEAD --prefix=repo/ | tar x -C "$W"; [ -d /repo/_build ] && cp -a /repo/_build "$W/repo/_build"
for f in /opt/vp/*; do sed "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" "$f" > "$W/vp/$(basename "$f")"; done
cd "$W/repo"; mkdir "$W/demo"; cp -r "$D"/* "$W/demo/"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1; r0=$?
patch -p1 -s < "$D/patch.diff" || { echo "$ID: PATCH FAILED"; exit 3; }
bash "$W/vp/build.sh" >"$W/build.log" 2>&1; rb=$?
bash "$W/vp/test.sh" "$W/out.json" >"$W/test.log" 2>&1
nf=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'));s=b.get('stable_tests',b.get('passed',b if isinstance(b,list) else []))
print(','.join(sorted(set(o['failed'])|(set(['?']) if len(o['passed'])<15 else set()))) or 'none')")
bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1; r1=$?
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
echo "$ID ($P): build=$rb failed_tests=$nf demo_before=$r0 demo_after=$r1 $([ $rb = 0 ] && [ $nf = none ] && [ $r0 = 0 ] && [ $r1 != 0 ] && echo COUNTS || echo BAD)"
[ $r0 = 0 ] || tail -5 "$W/demo0.log"; [ $rb = 0 ] || tail -5 "$W/build.log"
if [ "${2:-}" = check ]; then
  RK_REPO=$W/repo timeout 900 python3 $V/check.py "$P" >"$W/check.log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$P" "$W/check.log"; then echo "$ID: CAUGHT $(grep -A1 VIOLATION "$W/check.log" | sed -n 2p)"; else echo "$ID: MISSED rc=$rc"; tail -3 "$W/check.log"; fi
fi
[ -n "${KEEP:-}" ] || rm -rf "$W"
