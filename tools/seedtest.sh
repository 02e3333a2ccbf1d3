#!/bin/bash
# tools/seedtest.sh ID [nocheck] : confirms /verif/seeded/ID (build, stable tests, demo) and runs the property's check against it (development aid)
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
T=$(mktemp -d /tmp/seed.XXXX); cp -a $D/. $T/; rm -f $T/patch.diff $T/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
bash $T/demo.sh >$T/out0 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh $T/res.json >$T/build.log 2>&1 || echo "test.sh rc $?"
python3 - $T/res.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=set(b.get('passed') or b.get('stable') or b if isinstance(b,dict) else b)
p=set(r['passed'])
print("stable tests missing:",sorted(base-p)[:5])
P
timeout 300 bash $T/demo.sh >$T/out1 2>&1; echo "demo patched: $?"; tail -3 $T/out1
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd /verif && timeout 900 python3-vt vc/check.py $P --tier quick 2>$T/err | tail -2; grep -E "FAILED|COUNTEREXAMPLE" $T/err | head -4; head -c 600 evidence/replay_$P.txt | head -8)
fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$T"
