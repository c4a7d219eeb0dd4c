#!/bin/bash
# run.sh <property> <quick|thorough>: build the monitors with FaVe as it is in
# /repo's working tree, and run those of one property.
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/favecheck.XXXXXX) || exit 2
[ -n "$VERIF_KEEP" ] || trap 'rm -rf "$work"' EXIT
export VERIF_DIR=$here TMPDIR=$work VERIF_SEED=${VERIF_SEED:-1}
race=
case $prop in C11) race=-race ;; esac
mkdir -p "$here/evidence"
cd "$here/harness" || exit 2
if ! go build $race -o "$work/favecheck" ./cmd/favecheck 2>"$work/build.log"; then
	cat "$work/build.log"
	echo "run.sh: the monitors do not build against /repo"
	exit 2
fi
if [ "$prop" = C22 ]; then
	if ! go build -o "$work/fave-server" github.com/fairDataSociety/FaVe/cmd/fave-server 2>"$work/build.log"; then
		cat "$work/build.log"
		echo "run.sh: fave-server does not build"
		exit 2
	fi
	export VERIF_SERVER=$work/fave-server
fi
if [ -n "$race" ]; then
	# the race detector reports to files, which the monitors read at the end
	export GORACE="log_path=$work/race halt_on_error=0 exitcode=0 history_size=3" VERIF_RACE_LOG=$work/race
fi
"$work/favecheck" "$prop" "$tier" >"$work/out" 2>"$work/err"
rc=$?
cat "$work/out"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the process died: a crash of FaVe in one of its own goroutines, or of the harness
	if grep -q '^panic:\|^fatal error:\|^unexpected fault\|^SIG' "$work/err" && grep -q 'fairDataSociety/FaVe' "$work/err"; then
		mkdir -p "$here/evidence/replay"
		head -c 200000 "$work/err" >"$here/evidence/replay/$prop.crash.txt"
		head -40 "$work/err"
		python3 - "$prop" "$tier" "$VERIF_SEED" "$here/evidence/$prop.json" <<'P'
import json,sys
p,t,s,f=sys.argv[1:]
json.dump({"property":p,"tier":t,"seed":int(s),"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"the process crashed inside FaVe","samples":[]},"wall_s":0,"violations":1},open(f,"w"))
P
		echo "VIOLATION property=$prop replay=$here/evidence/replay/$prop.crash.txt"
		exit 1
	fi
	tail -60 "$work/err"
	exit 2
fi
exit $rc
