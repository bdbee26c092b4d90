#!/bin/bash
# Runs demo_test.go inside the package in the working directory.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
OV=$(mktemp)
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_helper_test.go":"%s/helper_test.go"}}' "$PWD" "$D" "$PWD" "$D" >"$OV"
go test -overlay "$OV" -run '^TestDemo$' -count=1 -timeout 120s .
rc=$?
rm -f "$OV"
exit $rc
