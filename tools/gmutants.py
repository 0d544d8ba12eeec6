#!/usr/bin/env python3
"""gmutants.py FILE FIRST LAST: by hand, like mutants.py, for changes that show under a condition only
(tools/gmutate).  Works on copies under /tmp/gmv."""
import os, subprocess, sys
import mutants
from mutants import sh
W='/tmp/gmv'; R=W+'/repo'; V=W+'/verif'
ORDER=os.environ.get('ORDER','C03 C01 C05 C06 C08 C16 C09 C13 C14 C15 C04 C10 C07').split()
def main():
    f,first,last=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
    subprocess.run(['rm','-rf',W]); os.makedirs(W)
    subprocess.run(['cp','-a','/repo',R]); subprocess.run(f'git clone -q /verif {V}', shell=True)
    sh(f"sed -i 's#=> /repo#=> {R}#' harness/go.mod", V)
    sh(f"go build -o {W}/gmutate {V}/tools/gmutate/main.go", W)
    src=open(f'{R}/{f}').read(); orig=W+'/orig.go'; open(orig,'w').write(src)
    for n in range(first,last):
        p=subprocess.run([W+'/gmutate',orig,str(n)],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        if p.returncode: continue
        open(f'{R}/{f}','w').write(p.stdout)
        rc,out=sh('go build ./...',R)
        if rc: continue
        rc,out=sh('go test -vet=off -count=1 -timeout 60s ./...',R,120)
        if rc: continue
        hit=None
        for c in ORDER:
            rc,out=sh(f'./check.sh {c} quick',V)
            if rc==1: hit=c; break
            if rc!=0: hit=f'{c}:rc{rc}'; print(out[-600:]); break
        print('KILLED' if hit else 'SURVIVED', hit, f, n, p.stderr.splitlines()[0], flush=True)
if __name__=='__main__': main()
