#!/bin/bash
# Development tool (no check uses it): verify one planted bug of /verif/seeded and see which checks catch it.
# usage: seedtest.sh ID [CHECK...]   (default: the property in meta.json)
set -u
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json,sys; print(json.load(open('$S/meta.json'))['property'])")
CHECKS=("${@:-$P}")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
export TMPDIR=/tmp
out=/tmp/seedwork/$ID; mkdir -p $out
L=$(mktemp -d); cp -a $S/. $L/; rm -f $L/*.diff $L/*.patch $L/meta.json
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) > $out/build.log 2>&1 || echo "$ID: BUILD/TEST exit nonzero"
r=$(python3 /tmp/cmp.py); echo "$ID patched tests: $r"
s=$(date +%s); bash $L/demo.sh > $out/demo-patched.log 2>&1; d1=$?; e=$(date +%s)
echo "$ID demo patched exit $d1 (want nonzero, $((e-s)) s): $(tail -1 $out/demo-patched.log | cut -c1-200)"
for c in "${CHECKS[@]}"; do
  s=$(date +%s); (cd /verif; ./check $c quick) > $out/check-$c.log 2>&1; k=$?; e=$(date +%s)
  echo "$ID check $c exit $k ($((e-s)) s): $(grep -m1 -E '^VIOLATION' $out/check-$c.log | cut -c1-200)"
done
git checkout -q -- .
bash /opt/vp/build.sh > $out/build2.log 2>&1
if [ -z "${SKIP_CLEAN:-}" ]; then
bash $L/demo.sh > $out/demo-clean.log 2>&1; d0=$?
echo "$ID demo clean exit $d0 (want 0)"
fi
rm -rf "$L"
