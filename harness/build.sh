#!/bin/bash
# build.sh OUT: build the harness from /repo's working tree
set -e
d=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
bash "$d/mkoverlay.sh" "$ov"
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd /repo
GOFLAGS="-overlay=$ov -modfile=$d/go.mod -mod=readonly" go build -o "$1" ./zzverif
