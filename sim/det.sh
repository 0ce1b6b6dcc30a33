#!/bin/bash
# Determinism of the simulator: the same seeds must give the same fingerprints
# in separate processes and with and without the race detector.
# det.sh [N] [BASE] (default 300 seeds of each property)
set -e
/verif/sim/build.sh
export GODEBUG=asyncpreemptoff=1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bad=0
for p in $(python3 -c 'import json;print(*[c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]])'); do
	i=0
	for b in vsim vsim-race vsim vsim-race; do
		i=$((i+1))
		/verif/.build/$b det -prop $p -n ${1:-300} -base ${2:-1} >$t/$i 2>/dev/null &
	done
	wait
	for i in 2 3 4; do
		cmp -s $t/1 $t/$i || { echo "$p: $(diff $t/1 $t/$i | grep -c '^<') of $(wc -l <$t/1) seeds differ in process $i"; bad=1; }
	done
	echo "$p: $(wc -l <$t/1) seeds"
done
exit $bad
