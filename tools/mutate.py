#!/usr/bin/env python3
"""mutate.py <dir> <mutant file> [ids...]: runs each mutant's property check in the copy <dir> (see copy.sh)."""
import sys,subprocess,time,re
d,f=sys.argv[1:3]; ids=set(sys.argv[3:])
g={}; exec(open(f).read(),g)
repo,verif=d+'/repo',d+'/verif'
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
for (id,prop,file,edits) in g['M']:
    if ids and id not in ids: continue
    sh(f'git -C {repo} checkout -q -- .')
    p=f'{repo}/{file}'; s=open(p).read(); ok=True
    for a,b in edits:
        if s.count(a)<1: print(id,prop,'EDIT DOES NOT APPLY',repr(a[:60]),flush=True); ok=False; break
        s=s.replace(a,b,1)
    if not ok: continue
    open(p,'w').write(s)
    t=time.time()
    for pr in prop.split(','):
        r=sh(f'cd {verif} && timeout 900 ./check.sh {pr} quick')
        out=r.stdout+r.stderr
        m=re.search(r'.*\n?.*VIOLATION property.*',out)
        note=(m.group(0).replace('\n',' ')[:230] if m else '\n'.join(out.splitlines()[-3:])[:300])
        print(id,pr,'rc=%d'%r.returncode,'%ds'%(time.time()-t),note,flush=True)
    sh(f'git -C {repo} checkout -q -- .')
