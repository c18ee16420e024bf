#!/bin/bash
# usage: catch.sh <id> [checks...]   which checks detect the planted bug (applies it to /repo and undoes it)
id=$1; shift
dir=/verif/seeded/$id
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$dir/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  out=$(cd /verif && timeout 900 bash run.sh $c quick 2>&1); rc=$?
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$c" <<<"$out"; then echo "$id: $c catches: $(grep -m1 "^$c:" <<<"$out" | cut -c1-170)"
  else echo "$id: $c MISSES (exit $rc)"; [ $rc -gt 1 ] && tail -5 <<<"$out"; fi
done
