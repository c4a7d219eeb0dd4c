#!/bin/bash
# trybug.sh ID [property...]: applies seeded/ID to /repo, runs the checks, undoes it.
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
for p in $props; do
	/verif/run.sh $p ${TIER:-quick} >/tmp/trybug.out 2>&1; rc=$?
	echo "$id $p rc=$rc $(grep -m1 '^  \[' /tmp/trybug.out | cut -c1-200)"
done
