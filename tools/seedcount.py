#!/usr/bin/env python3
"""Lists planted bugs whose patch changes no line of the original repository."""
import re,subprocess,os
R='/repo'
def git(*a,**k): return subprocess.run(['git','-C',R,*a],capture_output=True,text=True,check=True,**k).stdout
base=git('rev-list','--max-parents=0','HEAD').split()[0]
def added(path):
    out=set()
    for m in re.finditer(r'(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@',git('diff','-U0',base,'HEAD','--',path)):
        out.update(range(int(m[1]),int(m[1])+int(m[2] or 1)))
    return out
for s in sorted(os.listdir('/verif/seeded')):
    p=f'/verif/seeded/{s}/patch.diff'
    env=dict(os.environ,GIT_INDEX_FILE='/tmp/seedcount.index')
    subprocess.run(['git','-C',R,'read-tree','HEAD'],env=env,check=True)
    r=subprocess.run(['git','-C',R,'apply','--cached',p],env=env,capture_output=True,text=True)
    if r.returncode: print(s,'DOES NOT APPLY',r.stderr[:200]); continue
    d=subprocess.run(['git','-C',R,'diff','--cached','-U0','HEAD'],env=env,capture_output=True,text=True).stdout
    ok=False
    for f in re.split(r'(?m)^(?=diff )',d)[1:]:
        path=re.search(r'^\+\+\+ b/(\S+)',f,re.M)[1]; a=added(path)
        for h in re.split(r'(?m)^(?=@@ )',f)[1:]:
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',h); at=int(m[1]); n=1 if m[2] is None else int(m[2])
            code=any(l[0] in '+-' and l[1:].strip() and not l[1:].strip().startswith('//') for l in h.splitlines()[1:])
            old=[x not in a for x in (range(at,at+n) if n else (at,at+1)) if x>=1]
            if code and (any(old) if n else all(old)): ok=True
    if not ok: print(s,'does not count')
