#!/bin/bash
# Warms the build cache: compiles the harness and the commands once.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
cp harness/go.mod harness/go.sum "$t"/
(cd harness && go test -c -modfile "$t/go.mod" -o "$t/h.test" .)
(cd /repo && cp go.mod "$t/repo.mod" && cp go.sum "$t/repo.sum" && go build -modfile "$t/repo.mod" -o "$t/fj" . && go build -modfile "$t/repo.mod" -o "$t/ce" ./cmd/csvequals)
python3 -c 'import json; json.load(open("MANIFEST.json"))'
echo ok
