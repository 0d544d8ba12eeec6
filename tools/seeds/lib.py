import os, subprocess, json, shutil, sys
ROOT='/verif/seeded'
ENV=dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOFLAGS='-mod=mod')
def sh(cmd, cwd, timeout=400):
    p=subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
GODEMO='''#!/bin/bash
# Runs demo_test.go inside package directory {pkg} of the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$here" > "$t/o.json"
{pre}go test {flags} -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run 'TestDemo' ./{pkg}
'''
def make(b):
    w='/tmp/seeds/work'
    subprocess.run(['rm','-rf',w]); subprocess.run(['cp','-a','/repo',w])
    for f,old,new in b['edits']:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(old)!=1:
            print(b['id'],'EDIT MATCHES',s.count(old),repr(old)); return False
        open(p,'w').write(s.replace(old,new))
    if b.get('rewrite'): sh('for i in 1 2 3; do go test -vet=off -count=1 ./generate -run TestGolden -rewrite; done',w)
    rc,out=sh('gofmt -l . ; go build ./...',w)
    if rc: print(b['id'],'BUILD',out); return False
    rc,out=sh('go test -vet=off -count=1 ./...',w)
    if rc: print(b['id'],'TESTS CATCH IT',out[-600:]); return False
    rc,diff=sh('git diff',w)
    d=os.path.join('/tmp/seeds/out',b['id']); subprocess.run(['rm','-rf',d]); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    if 'sh' in b: open(d+'/demo.sh','w').write(b['sh'])
    else:
        open(d+'/demo.sh','w').write(GODEMO.format(pkg=b.get('pkg','.'),flags=b.get('flags',''),pre=b.get('pre','')))
        open(d+'/demo_test.go','w').write(b['demo'])
    for n,s in b.get('files',{}).items(): open(d+'/'+n,'w').write(s)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
    rc1,o1=sh(d+'/demo.sh',w)
    rc0,o0=sh(d+'/demo.sh','/repo')
    if rc0!=0 or rc1==0:
        print(b['id'],'DEMO clean',rc0,o0[-800:],'patched',rc1,o1[-300:]); return False
    if 'build failed' in o1 or 'setup failed' in o1: print(b['id'],'demo build?',o1[-500:]); return False
    f=os.path.join(ROOT,b['id']); subprocess.run(['rm','-rf',f]); shutil.copytree(d,f)
    print(b['id'],'OK'); return True
