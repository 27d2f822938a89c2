#!/usr/bin/env python3
# tools/plant.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.go  (helper: makes /verif/seeded/ID from an edit)
# The demo is a Go test file placed in a scratch copy of /repo.
import sys,os,subprocess,json,shutil,tempfile
BASE=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD']).decode().strip()
def plant(id,prop,edits,needs,breaks,demo,pkg='.'):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.check_call(['cp','-a','/repo/.',w])
        subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
        w0=tempfile.mkdtemp(prefix='plant')
        subprocess.check_call(['cp','-a',w+'/.',w0])
        for f,a,b in edits:
            s=open(w+'/'+f).read()
            assert s.count(a)==1,(f,a,s.count(a))
            open(w+'/'+f,'w').write(s.replace(a,b))
        subprocess.check_call(['gofmt','-l']+[w+'/'+f for f,_,_ in edits])
        diff=subprocess.check_output(['git','-C',w,'diff']).decode()
        open(d+'/patch.diff','w').write(diff)
        import re
        for f,_,_ in edits:
            bl=subprocess.check_output(['git','-C','/repo','blame','-s','-l','HEAD','--',f]).decode().split('\n')
            dd=subprocess.check_output(['git','-C',w,'diff','-U0','--',f]).decode()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',dd,re.M):
                a0,n=int(m[1]),int(m[2] or 1)
                for k in range(a0,a0+n):
                    if not bl[k-1].lstrip('^').startswith(BASE[:39]): print('WARNING: not an original line:',bl[k-1])
        w3=tempfile.mkdtemp(prefix='plant'); subprocess.check_call(['cp','-a',w+'/.',w3]); os.remove(w3+'/ora/encode_test.go')
        r=subprocess.run(['go','test','-vet=off','-count=1','-run','TestConfigDecoder|TestDecoder','./ora'],cwd=w3,capture_output=True,text=True,env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off'))
        shutil.rmtree(w3)
        assert r.returncode==0,('stable tests fail',r.stdout+r.stderr)
        r=subprocess.run(['gofmt','-e','-l','.'],cwd=w,capture_output=True,text=True)
        assert r.returncode==0,r.stderr
        open(d+'/demo_test.go.txt','w').write(demo)
        sh='''#!/bin/sh
# Runs the demonstration test next to this script in a scratch copy of the repository.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -a . "$work/repo" || exit 2
cd "$work/repo" || exit 2
rm -f PKG/*_test.go
cp "$here/demo_test.go.txt" "PKG/zz_demo_test.go" || exit 2
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go test -vet=off -count=1 -run TestDemo "./PKG"
'''.replace('PKG',pkg)
        open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        # confirm
        r=subprocess.run([d+'/demo.sh'],cwd=w0,capture_output=True,text=True)
        assert r.returncode==0,('demo fails on the unchanged tree',r.stdout+r.stderr)
        r=subprocess.run([d+'/demo.sh'],cwd=w,capture_output=True,text=True)
        assert r.returncode!=0,('demo passes with the patch',r.stdout)
        assert 'DEMO' in r.stdout or 'panic' in r.stdout or 'timed out' in r.stdout,r.stdout+r.stderr
        print(id,'planted:',[l for l in r.stdout.split('\n') if 'DEMO' in l or 'panic' in l][:2])
    finally:
        shutil.rmtree(w); shutil.rmtree(w0)
