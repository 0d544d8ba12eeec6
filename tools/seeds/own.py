import subprocess,os,re
R='/repo'
own=set(subprocess.run("git log --format=%H --author='' -n 60",shell=True,cwd=R,capture_output=True,text=True).stdout.split())
fixes=set(l.split()[0] for l in subprocess.run("git log --format='%H %s'",shell=True,cwd=R,capture_output=True,text=True).stdout.splitlines() if l.split(' ',1)[1].startswith('fix:'))
cache={}
def blame(f):
    if f not in cache:
        cache[f]=[l.split()[0].lstrip('^') for l in subprocess.run(['git','blame','-l','-s',f],cwd=R,capture_output=True,text=True).stdout.splitlines()]
    return cache[f]
for d in sorted(os.listdir('/verif/seeded')):
    p=open(f'/verif/seeded/{d}/patch.diff').read()
    orig=mine=0; insonly=True; nb=[]
    f=None
    for l in p.splitlines():
        if l.startswith('--- a/'): f=l[6:]; continue
        if l.startswith('+++'): continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1))-1; continue
        if f is None or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            insonly=False
            if any(blame(f)[n].startswith(x) for x in fixes): mine+=1
            else: orig+=1
            n+=1
        elif l.startswith('+'):
            b=blame(f)
            nb.append((n>0 and any(b[n-1].startswith(x) for x in fixes)) , ) if False else nb.append(any(b[max(n-1,0)].startswith(x) for x in fixes))
        else: n+=1
    if orig==0: print(d,'orig',orig,'mine',mine,'insonly',insonly,'insert-after-mine',sum(nb),'of',len(nb))
