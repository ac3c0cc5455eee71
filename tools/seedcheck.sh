#!/bin/bash
# seedcheck.sh ID [notest]: applies seeded/ID to /repo, runs the stable tests, the demo and the property's check, undoes it.
# not a check: a development aid
id=$1; d=/verif/seeded/$id
cd /repo && git diff --quiet || { echo "repo not clean"; exit 3; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed-clean.log 2>&1); c=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed-bad.log 2>&1); b=$?
t=skipped
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed-out.json >/tmp/seed-test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/seed-out.json'))['passed'])
m=[x for x in b if x not in o]
print('ok' if not m else 'BROKEN '+str(m[:4]))
P
)
fi
cd /verif && VERIF_SEED=1 timeout 900 python3 run.py $prop quick >/tmp/seed-check.log 2>&1; k=$?
v=$(grep -c "VIOLATION property=$prop" /tmp/seed-check.log)
echo "$id [$prop] demo clean=$c bad=$b tests=$t check_exit=$k violations=$v  $(grep -m1 -o '^  \[[^]]*\]' /tmp/seed-check.log)"
