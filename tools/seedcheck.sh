#!/bin/bash
# usage: seedcheck.sh [SEED...]: applies each planted bug to /repo, runs the
# quick check of its property, undoes it. Prints caught or MISSED.
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for s in "$@"; do
	s=${s%/}
	p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
	t=$(date +%s)
	VERIF_SEED=${VERIF_SEED:-1} bash /verif/run.sh "${CHECK:-$p}" quick >/tmp/seedcheck.out 2>&1
	rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p} " /tmp/seedcheck.out; then
		echo "caught $s ($(($(date +%s) - t)) s): $(grep -v '^VIOLATION' /tmp/seedcheck.out | grep -m1 -i 'first\|fail\|\[' | cut -c1-140)"
	else
		echo "MISSED $s rc=$rc ($(($(date +%s) - t)) s)"
		tail -3 /tmp/seedcheck.out
	fi
done
