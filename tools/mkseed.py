#!/usr/bin/env python3
"""mkseed.py FILE...: makes seeded/<id>/ from a description: a Python file that
sets id, prop, needs, breaks, edits [(file, old, new)], demo (Go test source,
package document_test, func TestZZDemo)."""
import sys, os, json, subprocess, shutil, tempfile, re
V='/verif'
DEMO='''#!/bin/bash
# fails when the change is in; works in a scratch directory of its own
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
{
	printf '{"Replace":{"x":""'
	for f in "$d"/*.go.txt; do
		printf ',"%s/pkg/document/zz_%s_test.go":"%s"' "$PWD" "$(basename "$f" .go.txt)" "$f"
	done
	printf '}}'
} | sed 's/"x":"",//' >"$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 250s RACE-run '^TestZZDemo$' ./pkg/document
'''
def make(f):
    g={}; exec(open(f).read(),g)
    d=f'{V}/seeded/{g["id"]}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(prefix='/tmp/mk.')
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for file,old,new in g['edits']:
        p=f'{w}/r/{file}'; s=open(p).read()
        if s.count(old)!=1: print(g['id'],file,'matches',s.count(old)); shutil.rmtree(w); shutil.rmtree(d); return
        open(p,'w').write(s.replace(old,new))
    subprocess.call('. /opt/vp/env.sh; gofmt -l $(git diff --name-only | grep go$)',shell=True,cwd=w+'/r')
    diff=subprocess.check_output(['git','diff'],cwd=w+'/r').decode(); open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    demo=g['demo']
    for n in ('bee','stack','index','log'):
        s=open(f'{V}/harness/fx/{n}.go').read()
        s=re.sub(r'(?m)^package fx$','package document_test',s)
        open(f'{d}/fx{n}.go.txt','w').write(s)
    open(d+'/demo.go.txt','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO.replace('RACE','-race ' if g.get('race') else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    print('made',g['id'])
for f in sys.argv[1:]: make(f)
