#!/bin/bash
# dev: catch.sh ID [tier] -- applies seeded/ID, runs the check of its property, undoes it
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
timeout 900 python3 /verif/check.py $P --tier ${2:-quick} > /tmp/catch.$1 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$1 $P rc=$rc $(grep -c VIOLATION /tmp/catch.$1) $(grep VIOLATION /tmp/catch.$1 | head -1)"
