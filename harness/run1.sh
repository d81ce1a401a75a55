#!/bin/bash
# run1.sh PKG [flags]: builds one harness against /repo's current tree and runs it
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
T=$(mktemp -d); chmod 755 $T; cd /verif/harness
python3 - $T <<'P'
import json,os,sys
r={}
for d in os.listdir('.'):
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.endswith('.go'): r['/repo/internal/zzverif/%s/%s'%(d,f)]='/verif/harness/%s/%s'%(d,f)
json.dump({'Replace':r},open(sys.argv[1]+'/o.json','w'))
P
p=$1; shift
(cd /repo && go build -overlay $T/o.json -o $T/h ./internal/zzverif/$p) && (cd /repo && go build -o $T/bin/ ./cmd/...) && $T/h -scratch $T/s -bin $T/bin "$@" | cut -c1-1500; rc=${PIPESTATUS[0]}; rm -rf "$T"; exit $rc
