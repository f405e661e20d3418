#!/bin/bash
# seedcheck.sh ID [nocheck|notest]: apply seeded change ID to /repo, build, run stable tests, demo and the property's check; undo
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/seed_$ID.demo0 2>&1; d0=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
t=skipped
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed_$ID.json > /tmp/seed_$ID.test 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_$ID.json'))
st=b.get('stable') or b.get('passed') or b
miss=[x for x in st if x not in r['passed']]
print('ok' if not miss else 'BROKEN %d %s'%(len(miss),miss[:2]))")
fi
bash $D/demo.sh >/tmp/seed_$ID.demo1 2>&1; d1=$?
c=skipped
if [ "$2" != nocheck ]; then
VERIF_SEED=1 VERIF_TIER=quick python3-vt /verif/check.py $P > /tmp/seed_$ID.check 2>&1; c="exit $? $(grep -m1 VIOLATION /tmp/seed_$ID.check)"
fi
git checkout -q -- .
echo "$ID: demo unchanged=$d0 patched=$d1 tests=$t check=$c"
