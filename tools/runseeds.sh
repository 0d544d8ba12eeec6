#!/bin/bash
# runseeds.sh [ids]: each against its own property
cd ${VD:-/verif}
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAIL"; continue; }
 s=$(date +%s.%N)
 VERIF_SEED=${SEED:-1} ./check.sh $p quick > /tmp/seedout.$d 2>&1; rc=$?
 e=$(date +%s.%N)
 git -C /repo checkout -q -- .
 printf "%-18s %s rc=%s %.1fs %s\n" $d $p $rc $(echo "$e-$s"|bc) "$(grep -m1 -E 'VIOLATION' /tmp/seedout.$d)"
done
