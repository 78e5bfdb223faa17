#!/bin/bash
# bench.sh [ID...]: applies each planted bug to /repo in turn, runs its demonstration and the check of
# the property it breaks, and undoes it. Needs a clean /repo.
cd "$(dirname "$0")/.." || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$id/meta.json")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd /repo && bash /verif/seeded/"$id"/demo.sh >/dev/null 2>&1); demo=$?
  out=$(bash check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop demo=$demo check=$rc $(grep -m1 -o 'VIOLATION.*' <<<"$out")"
done
