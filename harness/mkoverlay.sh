#!/bin/bash
# mkoverlay.sh OUT.json: overlay that lays go.mod and the harness over /repo
d=$(cd "$(dirname "$0")" && pwd)
{
echo '{"Replace": {'
echo " \"/repo/go.mod\": \"$d/go.mod\","
echo " \"/repo/parser_test.go\": \"\", \"/repo/grammer_test.go\": \"\""
for f in "$d"/*.go; do echo ", \"/repo/zzverif/$(basename $f)\": \"$f\""; done
echo '}}'
} > "$1"
