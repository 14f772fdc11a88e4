#!/bin/bash
# tools/try_bug.sh ID [CHECK...]: confirms a planted bug (build, stable tests, demo with and without the patch)
# and runs the checks (by default the one of its property) against it. /repo must be clean and is restored.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"; B="$ROOT/seeded/$1"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
PROP=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
shift; CHECKS="${*:-$PROP}"
export VERIF_ROOT=/tmp/vr
[ -n "$NODEMO" ] || { (cd /repo && timeout 300 bash "$B/demo.sh") >/tmp/demo0.log 2>&1 || { echo "$B: demo fails on the unchanged tree"; cat /tmp/demo0.log; exit 1; }; }
git -C /repo apply "$B/patch.diff" || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "$B: does not build"; grep -A8 '^error' /tmp/build.log | head -30; exit 1; }
if [ -z "$NODEMO" ]; then
(cd /repo && timeout 300 bash "$B/demo.sh") >/tmp/demo1.log 2>&1 && { echo "$B: demo passes with the patch"; cat /tmp/demo1.log; exit 1; }
timeout 400 bash /opt/vp/test.sh /tmp/bugout.json >/tmp/test.log 2>&1
T=$(python3 -c "import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/bugout.json'))
print('missing', sorted(b-set(o['passed']))[:10], 'failed', o['failed'][:10])"); case "$T" in *"missing [] failed []"*) ;; *) echo "$B: tests: $T"; exit 1;; esac
fi
for c in $CHECKS; do
  "$ROOT/bin/check" $c >/tmp/check.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$c" /tmp/check.log; then echo "CAUGHT $(basename $B) by $c: $(grep -m1 evaluations /tmp/check.log)"; else echo "MISSED $(basename $B) by $c rc=$rc $(tail -1 /tmp/check.log)"; fi
done
