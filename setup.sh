#!/bin/bash
# Build both tools once, to warm the Go build cache. The checks build them again.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bash govc/build.sh "$t/govc"
bash harness/build.sh "$t/h"
