#!/bin/bash
# Runs the check of its own property (or the properties given in CHECKS) against each planted bug given (default: all).
# usage: [CHECKS="P01 P02"] run.sh [id ...]
cd /verif || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id APPLY"; continue; }
	prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	for p in ${CHECKS:-$prop}; do
		s=$(date +%s)
		timeout 900 ./check.sh $p >/tmp/run.$p.out 2>&1
		rc=$?
		v=$(grep -c "^VIOLATION property=$p" /tmp/run.$p.out)
		echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/run.$p.out | cut -c1-100)"
	done
	git -C /repo checkout -q -- .
done
