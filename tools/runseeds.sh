#!/bin/bash
# runs the check of each seeded change (in a scratch worktree) and prints the outcome
# usage: runseeds.sh [-p PROP] [id ...]     (quick tier)
PROP=
[ "$1" = -p ] && { PROP=$2; shift 2; }
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  W=/tmp/wt/rs_$i
  git -C /repo worktree add -q --detach $W HEAD || continue
  git -C $W apply /verif/seeded/$i/patch.diff || { echo "$i patch does not apply"; git -C /repo worktree remove --force $W; continue; }
  s=$(date +%s)
  out=$(REPO=$W timeout 900 /verif/check.sh $p quick 2>&1); rc=$?
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E 'VIOLATION' | cut -c1-150)"
  [ $rc -ne 1 ] && echo "$out" | tail -3 | cut -c1-300
  git -C /repo worktree remove --force $W
done
