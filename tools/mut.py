#!/usr/bin/env python3
"""mut.py FILE [-j N] [-k name] : tries mutants of FaVe in scratch copies. FILE holds
M(name, props, [(file, old, new)...]) calls. For each: builds, runs the tests of
the changed packages, then the quick checks of props, and prints who caught it."""
import sys, os, subprocess, shutil, tempfile, json, concurrent.futures as cf, argparse
a=argparse.ArgumentParser(); a.add_argument('file'); a.add_argument('-j',type=int,default=2); a.add_argument('-k',default=''); a.add_argument('--all',action='store_true'); a.add_argument('--notest',action='store_true')
A=a.parse_args()
L=[]
def M(name, props, edits): L.append((name,props.split() if isinstance(props,str) else props,edits))
exec(open(A.file).read())
ENV='. /opt/vp/env.sh; '
def run(m):
    name,props,edits=m
    w=tempfile.mkdtemp(prefix='/tmp/mut.')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/repo'])
        for f,old,new in edits:
            p=f'{w}/repo/{f}'; s=open(p).read()
            if s.count(old)<1: return name,'NOMATCH '+f
            if s.count(old)>1: return name,f'AMBIGUOUS {s.count(old)} '+f
            open(p,'w').write(s.replace(old,new))
        b=subprocess.run(ENV+'go build ./...',shell=True,cwd=w+'/repo',capture_output=True,text=True,executable='/bin/bash')
        if b.returncode: return name,'NOBUILD '+b.stderr[-300:]
        tests=''
        if not A.notest:
            ov=open('/opt/vp/overlay.json').read().replace('/repo/',w+'/repo/'); open(w+'/ov.json','w').write(ov)
            o=subprocess.run(ENV+f'go test -overlay {w}/ov.json ./... -vet=off -count=1 -json',shell=True,cwd=w+'/repo',capture_output=True,text=True,executable='/bin/bash').stdout
            ok=set()
            for l in o.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
            base=json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss=[n for n in base if n not in ok]
            if miss: tests='(tests fail: %s) '%miss[0]
        shutil.copytree('/verif',w+'/verif',ignore=shutil.ignore_patterns('.git','evidence','seeded'))
        g=w+'/verif/harness/go.mod'; s=open(g).read(); open(g,'w').write(s.replace('/repo',w+'/repo'))
        res=[];caught=False
        for p in props:
            try:
                r=subprocess.run(['bash','run.sh',p,'quick'],cwd=w+'/verif',capture_output=True,text=True,timeout=900)
                line=[x for x in r.stdout.splitlines() if x.startswith('  [')]
                res.append(f'{p}={"CAUGHT" if r.returncode==1 and "VIOLATION property="+p in r.stdout else "quiet" if r.returncode==0 else "rc%d"%r.returncode} {line[0].strip()[:110] if line else ""}')
                if r.returncode==1: caught=True
                elif r.returncode!=0: res[-1]+=r.stdout[-300:]
            except subprocess.TimeoutExpired: res.append(p+'=TIMEOUT')
            if caught and not A.all: break
        return name,tests+('' if caught else 'MISSED ')+' | '.join(res)
    finally: shutil.rmtree(w,ignore_errors=True)
todo=[m for m in L if A.k in m[0]]
with cf.ThreadPoolExecutor(A.j) as ex:
    for f in cf.as_completed([ex.submit(run,m) for m in todo]):
        n,r=f.result(); print(n,':',r,flush=True)
