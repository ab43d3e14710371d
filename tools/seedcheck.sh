#!/bin/bash
# tools/seedcheck.sh [ID...]: run the check of its property against planted bugs (applied to /repo and undone).
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(ls "$here/seeded")
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$id/patch.diff" || continue
  o=$("$here/check" $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$o" | grep 'violated clause' | head -3 | tr -s ' \n' ' ')"
done
