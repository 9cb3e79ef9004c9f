#!/bin/bash
# tools/plantq.sh ID [seconds]: the check alone against one planted bug, in a worktree
id=$1
d=/verif/seeded/$id
prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
wt=/tmp/wt-$id
git -C /repo worktree add -q --detach $wt HEAD && git -C $wt apply $d/patch.diff
cd /verif
SIM_REPO=$wt VERIF_SEED=${SEED:-1} VERIF_TIER=quick SIM_SECONDS=${2:-40} python3 check.py $prop > /tmp/plant.$id 2>&1; echo "$id check $prop: $?"; tail -${TAIL:-1} /tmp/plant.$id | cut -c1-300
git -C /repo worktree remove --force $wt
