#!/bin/bash
# try_seeds.sh [ids…]: applies each planted bug to /repo, runs the quick check of its
# property (or the checks in $CHECKS), undoes it. Development tool, no check uses it.
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in ${CHECKS:-$prop}; do
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} ./check.sh "$p" quick >/tmp/try.out 2>/tmp/try.err
    rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try.out | cut -c1-120) | $(tail -1 /tmp/try.out | cut -c1-140)"
  done
  git -C /repo checkout -q -- .
done
