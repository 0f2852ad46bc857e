#!/bin/bash
# usage: tools/seeded.sh [--all-props] [id...]   development only: runs checks against the planted bugs, in scratch copies of /repo
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] && ids=("$@") || ids=($(ls "$here/seeded"))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  d=$(mktemp -d /tmp/seeded.XXXXXX)
  mkdir "$d/repo" "$d/verif" "$d/verif/evidence"
  git -C /repo archive HEAD | tar -x -C "$d/repo"
  cp -a "$here/vp" "$here/run.py" "$here/known_findings.txt" "$d/verif/"
  (cd "$d/repo" && git init -q . && git apply "$here/seeded/$id/patch.diff") || echo "$id: does not apply"
  for p in ${PROPS:-$prop}; do
    out=$(cd "$d/verif" && VP_REPO="$d/repo" ./run.py $p 2>/dev/null); rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -v ^VIOLATION | tail -1 | cut -c1-150)"
  done
  rm -rf "$d"
done
