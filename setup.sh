#!/bin/bash
# Builds the analyzer from the committed sources (offline) unless it is current.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}"
new=$(cat analyzer/*.go analyzer/go.mod | sha256sum | cut -d' ' -f1)
if [ -x bin/analyzer ] && [ "$(cat bin/stamp 2>/dev/null)" = "$new" ]; then exit 0; fi
mkdir -p bin
cd analyzer && env -u GOROOT GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off GOPATH=/root/go go build -o ../bin/analyzer . || exit 1
echo "$new" > ../bin/stamp
