#!/bin/bash
# check.sh PROPERTY TIER: builds the verifier and decides one property on /repo's current tree.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off HOME="${HOME:-/root}"
T=$(mktemp -d /tmp/verif-gover-XXXXXX) || exit 2
(cd /verif/gover && go build -o "$T/gover" .) || { rm -rf "$T"; exit 2; }
"$T/gover" check "$1" -tier "${2:-quick}"; rc=$?
rm -rf "$T"
exit $rc
