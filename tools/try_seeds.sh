#!/bin/bash
# tools/try_seeds.sh [id...]: run each planted bug's check against it (applies the patch to /repo and undoes it)
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(timeout 900 /opt/venv/bin/python check.py $prop quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-100) :: $(echo "$out" | tail -1 | cut -c1-160)"
done
