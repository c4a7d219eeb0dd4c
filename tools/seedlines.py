#!/usr/bin/env python3
"""seedlines.py: for each planted bug, whether the lines it removes are the original repository's."""
import subprocess,glob,re,os
base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()[-1]
own=set(subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^fix:\\|^hook'],text=True).split())
for d in sorted(glob.glob('/verif/seeded/*')):
    f=None; out=[]
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.check_output(['git','-C','/repo','blame','-l','-s',f],text=True).split('\n')
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if f is None or l.startswith(('---','+++','diff','index')): continue
        if l[0]=='-': out.append('own' if bl[n-1].split()[0].lstrip('^') in own else 'orig')
        if l[0] in '- ': n+=1
    print(os.path.basename(d),out)
