#!/bin/bash
# Runs checks against planted bugs in a copy of /verif and /repo of its own.
# Not used by any check; several can run at once under different names. VSRC: another copy of the framework.
# usage: [CHECKS="P01 P02"] [SEEDED=dir] [SRC=repo] copyrun.sh NAME [id ...]   ("-" as id: the unchanged tree)
N=$1; shift
V=/tmp/cr.$N.v R=/tmp/cr.$N.r
rm -rf "/tmp/cr.$N.v" "/tmp/cr.$N.r"
mkdir $V
(cd ${VSRC:-/verif} && tar -c --exclude=.git --exclude=build --exclude=seeded .) | tar -x -C $V --exclude=seeded
git clone -q /repo $R
sed -i "s#/repo#$R#g" $V/check.sh $V/setup.sh $V/mon/go.mod $V/mon/cmd/mon/main.go
S=${SEEDED:-/verif/seeded}
cd $V
for id in "$@"; do
	prop=P01
	if [ "$id" != - ]; then
		git -C $R apply "$S/$id/patch.diff" || { echo "$id APPLY"; continue; }
		prop=$(python3 -c "import json,sys;print(json.load(open('$S/$id/meta.json'))['property'])")
	fi
	for p in ${CHECKS:-$prop}; do
		s=$(date +%s)
		timeout 900 ./check.sh $p >/tmp/cr.$N.$p.out 2>&1
		rc=$?
		v=$(grep -c "^VIOLATION property=$p" /tmp/cr.$N.$p.out)
		echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/cr.$N.$p.out | cut -c1-100)"
	done
	git -C $R checkout -q -- .
done
rm -rf "/tmp/cr.$N.v" "/tmp/cr.$N.r"
