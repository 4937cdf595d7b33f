#!/usr/bin/env python3
"""mkseed.py ID < spec.json : makes /verif/seeded/ID from an edit spec and confirms it in a scratch copy.
spec: {property, needs, breaks, pkg, edits:[[file,old,new],...], demo: go test source with func TestDemo}"""
import json,os,subprocess,sys,shutil,tempfile
ENV=dict(os.environ,HOME=os.environ.get('HOME','/root'),GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='1')
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. Runs in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 @FLAGS@ -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' ./PKG
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def main():
    sid=sys.argv[1]; spec=json.load(sys.stdin)
    w=tempfile.mkdtemp(prefix='seed-'+sid+'-',dir='/tmp')
    try:
        sh('cp -a /repo/. %s/'%w,'/'); sh('git checkout -q -- . && git clean -fdq',w)
        out='/verif/seeded/'+sid; os.makedirs(out,exist_ok=True)
        open(out+'/demo.go.txt','w').write(spec['demo'])
        open(out+'/demo.sh','w').write(DEMO.replace('PKG',spec['pkg']).replace('@FLAGS@',spec.get('flags','')))
        os.chmod(out+'/demo.sh',0o755)
        r=sh('bash %s/demo.sh'%out,w)
        print(sid,'demo on clean tree:',r.returncode)
        if r.returncode: print(r.stdout[-3000:],r.stderr[-2000:]); return 1
        for f,old,new in spec['edits']:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(old)<1: print('edit not found',f,old); return 1
            open(p,'w').write(s.replace(old,new,1))
        d=sh('git diff',w).stdout
        open(out+'/patch.diff','w').write(d)
        r=sh('go build ./...',w)
        if r.returncode: print('build',r.stderr); return 1
        r=sh('bash %s/demo.sh'%out,w)
        print(sid,'demo with patch:',r.returncode)
        if r.returncode==0: print(r.stdout[-1500:]); return 1
        if '--notest' not in sys.argv:
            r=sh('go test -json -vet=off -count=1 -timeout 10m ./...',w)
            res={}
            for l in r.stdout.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action') in('pass','fail') and e.get('Test'): res[e['Package']+'.'+e['Test']]=e['Action']
            bad=[k for k,v in res.items() if v=='fail']
            print(sid,'tests passed',sum(v=='pass' for v in res.values()),'failed',bad)
        json.dump(dict(property=spec['property'],needs=spec['needs'],what_it_breaks=spec['breaks']),open(out+'/meta.json','w'),indent=1)
    finally:
        shutil.rmtree(w)
    return 0
sys.exit(main())
