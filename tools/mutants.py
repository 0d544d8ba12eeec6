#!/usr/bin/env python3
"""mutants.py FILE [FIRST [LAST]]: by hand, look for mutants of a file of /repo that build and pass
its tests but are missed by the checks.  Works on copies under /tmp/mv."""
import os, subprocess, sys, json
W='/tmp/mv'; R=W+'/repo'; V=W+'/verif'
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOFLAGS='-mod=mod', VERIF_SEED='1')
def sh(cmd, cwd, timeout=900):
    try: p=subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired: return 99,'timeout'
    return p.returncode,p.stdout
ORDER=os.environ.get('ORDER','C03 C18 C05 C08 C06 C01 C13 C11 C10 C09 C16 C15 C14 C23 C24 C12 C07 C02 C04 C22 C17 C19 C20 C21').split()
def main():
    f=sys.argv[1]
    subprocess.run(['rm','-rf',W]); os.makedirs(W)
    subprocess.run(['cp','-a','/repo',R]); subprocess.run(f'git clone -q /verif {V}', shell=True)
    sh("sed -i 's#=> /repo#=> /tmp/mv/repo#' harness/go.mod", V)
    src=open(f'{R}/{f}').read()
    orig=W+'/orig.go'; open(orig,'w').write(src)
    lines=subprocess.run(['/tmp/mutate',orig],stdout=subprocess.PIPE,text=True).stdout.splitlines()
    first=int(sys.argv[2]) if len(sys.argv)>2 else 0
    last=int(sys.argv[3]) if len(sys.argv)>3 else len(lines)
    for n in range(first,min(last,len(lines))):
        m=subprocess.run(['/tmp/mutate',orig,str(n)],stdout=subprocess.PIPE,text=True).stdout
        open(f'{R}/{f}','w').write(m)
        rc,out=sh('go build ./...',R)
        if rc: continue
        rc,out=sh('go test -vet=off -count=1 -timeout 60s ./...',R,120)
        if rc: continue
        hit=None
        for c in ORDER:
            rc,out=sh(f'./check.sh {c} quick',V)
            if rc==1: hit=c; break
            if rc!=0: hit=f'{c}:rc{rc}'; print(out[-600:]); break
        print('KILLED' if hit else 'SURVIVED', hit, f, lines[n], flush=True)
    open(f'{R}/{f}','w').write(src)
if __name__=="__main__": main()
