#!/bin/bash
# build.sh OUT: build the verification condition generator
set -e
cd "$(dirname "$0")"
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
go build -o "$1" .
