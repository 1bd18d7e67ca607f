#!/bin/bash
# seedrun.sh <bug> [property...]: apply a planted bug to /repo, run checks against it, undo it.
root=$(cd "$(dirname "$0")" && pwd)
bug=$1; shift
d=$root/seeded/$bug
[ $# -eq 0 ] && set -- "$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")"
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in "$@"; do
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash "$root/check.sh" "$p" 2>&1); c=$?
  echo "$bug $p exit=$c $(($(date +%s)-s))s $(grep -m1 -o 'VIOLATION.*' <<<"$out")"
done
