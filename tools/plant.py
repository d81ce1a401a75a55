#!/usr/bin/env python3
"""plant.py FILE.py...: each file defines id, property, pkg, edits, demo, needs, breaks. Confirms the planted bug in a
scratch copy of /repo (it builds, the stable tests pass, the demonstration passes without and fails with it) and, if so,
writes /verif/seeded/<id>/."""
import json,os,shutil,subprocess,sys,tempfile,runpy
DEMO='''#!/bin/bash
# Runs the demonstration test beside this file in %(pkg)s of the repository in the current directory.
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_planted_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" >"$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s -run 'TestPlanted' ./%(pkg)s
'''
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',GOWORK='off')
def sh(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,shell=isinstance(cmd,str))
base=json.load(open('/opt/vp/BASELINE.json'))
def one(f):
    m=runpy.run_path(f)
    d=tempfile.mkdtemp(prefix='plant-'); r=d+'/repo'; sd=d+'/seed'; os.mkdir(sd)
    try:
        sh(['cp','-a','/repo',r],None)
        if 'demo_sh' in m: open(sd+'/demo.sh','w').write(m['demo_sh'])
        else:
            open(sd+'/demo_test.go','w').write(m['demo']); open(sd+'/demo.sh','w').write(DEMO%m)
        for n,c in m.get('files',{}).items(): open(sd+'/'+n,'w').write(c)
        os.chmod(sd+'/demo.sh',0o755)
        sh('go build -o bin/ ./cmd/...',r)
        a=sh(['bash',sd+'/demo.sh'],r)
        if a.returncode: return 'demo fails on the unchanged tree:\n'+a.stdout+a.stderr
        for fn,old,new in m['edits']:
            s=open(r+'/'+fn).read()
            if s.count(old)!=1: return 'edit matches %d times in %s: %r'%(s.count(old),fn,old)
            open(r+'/'+fn,'w').write(s.replace(old,new))
        b=sh('go build ./... && go build -o bin/ ./cmd/...',r)
        if b.returncode: return 'does not build: '+b.stderr
        t=sh('go test -json -vet=off -count=1 ./... ',r)
        res={}
        for l in t.stdout.splitlines():
            e=json.loads(l)
            if e.get('Test') and e['Action'] in('pass','fail'): res[e['Package']+'/'+e['Test']]=e['Action']
        bad=[s for s in base['stable'] if res.get(s)!='pass']
        if bad: return 'existing tests fail: %s'%bad
        p=sh(['bash',sd+'/demo.sh'],r)
        if p.returncode==0: return 'demo passes with the change'
        diff=sh('git diff',r).stdout
        open(sd+'/patch.diff','w').write(diff)
        json.dump({'property':m['property'],'needs':m['needs'],'what_it_breaks':m['breaks']},open(sd+'/meta.json','w'),indent=1)
        dst='/verif/seeded/'+m['id']
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(sd,dst)
        return 'ok  ('+(p.stdout+p.stderr).strip().replace('\n',' | ')[:300]+')'
    finally: shutil.rmtree(d,ignore_errors=True)
for f in sys.argv[1:]: print(os.path.basename(f),one(f),flush=True)
