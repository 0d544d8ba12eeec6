#!/bin/bash
# runrefac.sh DIFF: all checks must be quiet
cd /verif
git -C /repo apply $1 || exit 3
for p in ${@:2}; do
 ./check.sh $p quick > /tmp/refacout.$p 2>&1; rc=$?
 [ $rc = 0 ] || { echo "$p rc=$rc"; head -5 /tmp/refacout.$p; }
done
git -C /repo checkout -q -- .
echo done
