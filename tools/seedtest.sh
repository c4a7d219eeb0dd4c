#!/bin/bash
# seedtest.sh ID: validates seeded/ID in a scratch copy (applies, builds, passes
# the stable tests, demo 0 on the clean tree and nonzero with the patch).
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo" || exit 1
(timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1); c=$?
[ $c = 0 ] || { echo "$id: demo fails on the clean tree"; tail -20 "$w/clean.log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
(timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1); b=$?
[ $b != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
go test -overlay <(sed "s,/repo/,$w/repo/,g" /opt/vp/overlay.json) ./... -vet=off -count=1 -json 2>/dev/null >"$w/t.json"
python3 - "$w/t.json" <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('stable') or base.get('passed') or base.get('tests')
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Package']+'.'+e['Test']); ok.add(e['Package']+'::'+e['Test'])
miss=[n for n in names if n not in ok and n.split('::')[-1] not in ok]
print(len(names)-len(miss),'stable tests pass',miss[:3])
sys.exit(1 if miss else 0)
P
echo "$id: ok"; grep -m3 -h -- "---\|demo" "$w/bug.log" | head -5
