#!/bin/bash
# tryseed.sh SEED [CHECK...]: run checks against the scratch tree with the seed applied
id=$1; shift
S=/tmp/w/seedrepo
git -C $S checkout -q -- . && git -C $S apply /verif/seeded/$id/patch.diff || exit 2
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for c in ${*:-$p}; do
  HUSK_REPO=$S timeout 900 /verif/check.sh $c > /tmp/w/try.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(grep -m1 VIOLATION /tmp/w/try.log | cut -c1-200)"
done
git -C $S checkout -q -- .
