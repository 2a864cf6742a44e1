#!/bin/bash
# Runs the quick check of each seeded bug's property on a worktree that has the bug:
#   tools/trybugs.sh [ID...]
wt=/tmp/wt
git -C /repo worktree add --detach $wt HEAD > /dev/null 2>&1
git -C $wt checkout -q --detach "$(git -C /repo rev-parse HEAD)"
cd /verif || exit 1
for b in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
	git -C $wt checkout -q -- . && git -C $wt apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
	s=$SECONDS
	MC_REPO=$wt VERIF_TIER=quick timeout 900 python3 run.py $p > /tmp/trybug.log 2>&1
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/trybug.log; then r=caught; else r="MISSED (exit $rc)"; fi
	echo "$b $p $r $((SECONDS - s))s"
done
git -C $wt checkout -q -- .
