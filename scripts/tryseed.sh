#!/bin/bash
# tryseed.sh ID...: run the property's quick check against each planted change
cd /verif
for id in "$@"; do
p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
t=$(date +%s); bash scripts/check.sh $p quick > /tmp/seed.out.$id 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(grep -A1 VIOLATION /tmp/seed.out.$id | tail -1 | cut -c1-160)"
done
