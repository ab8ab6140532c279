#!/bin/bash
# catch.sh ID...: applies each planted change to /repo, runs the check of its property, undoes the change
for s in "$@"; do
d=/verif/seeded/$s
id=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || continue
python3 /verif/check.py $id > /tmp/catch.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$s: $id rc=$rc $(grep -c ^VIOLATION /tmp/catch.out) violations"; [ $rc = 1 ] && grep -v ^VIOLATION /tmp/catch.out | head -4 | cut -c1-220
done
