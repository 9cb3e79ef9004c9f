#!/bin/bash
# tools/plant.sh ID [seconds]: demo on the clean tree, then apply seeded/ID, build, tests, demo, check; undo.
id=$1; secs=${2:-}
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/plant.demo 2>&1; echo "demo clean: $?"
trap undo EXIT
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 -c "import json;d=json.load(open('/tmp/plant.json'));print('tests', len(d['passed']), 'failed', d['failed'])"
bash $d/demo.sh >/tmp/plant.demo 2>&1; echo "demo patched: $?"; tail -2 /tmp/plant.demo
cd /verif
VERIF_SEED=1 VERIF_TIER=quick SIM_SECONDS=$secs python3 check.py $prop > /tmp/plant.check 2>&1; echo "check $prop: $?"; tail -3 /tmp/plant.check | cut -c1-300
