#!/bin/bash
# Builds the monitors once (warms the build cache; every check builds again from /repo's current tree).
HERE=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
TMP=$(mktemp -d) || exit 1
trap 'rm -rf "$TMP"' EXIT
cd "$HERE/harness" && CGO_ENABLED=0 go build -o "$TMP/h" . && CGO_ENABLED=0 go build -tags guided -gcflags='github.com/twuillemin/modes/...=-d=libfuzzer' -o "$TMP/g" . && CGO_ENABLED=1 go build -race -o "$TMP/r" . && echo "monitors build"
