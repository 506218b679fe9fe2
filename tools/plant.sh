#!/bin/bash
# plant.sh ID: confirms the planted bug /verif/seeded/ID in a scratch copy: applies, builds, passes the tests, demo ok without and failing with it
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant_$ID
[ -f $S/patch.diff ] || { echo "no patch"; exit 1; }
cd /repo && [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
D=/tmp/plantdemo_$ID; rm -rf /tmp/plantdemo_$ID; cp -r $S $D; rm -f $D/patch.diff $D/meta.json
echo "demo without: $(bash $D/demo.sh >/tmp/plant_$ID.log 2>&1; echo $?)"
git apply $S/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/plant_$ID.json >/tmp/plant_$ID.build 2>&1
python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); b=set(base['stable'])
g=json.load(open('/tmp/plant_$ID.json')); print('tests: missing', sorted(b-set(g['passed']))[:5], 'of', len(b))
P
echo "demo with: $(timeout 300 bash $D/demo.sh >>/tmp/plant_$ID.log 2>&1; echo $?)"; tail -2 /tmp/plant_$ID.log
if [ "$2" != nocheck ]; then
  for p in ${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do (cd /verif; VERIF_SEED=1 python3 run_check.py $p quick 2>&1 | grep -E "VIOLATION|^OK|^ERROR|BUILD" | head -3); done
fi
git checkout -- . ; rm -rf /tmp/plantdemo_$ID /tmp/plant_$ID.*
bash /opt/vp/build.sh >/dev/null 2>&1
