#!/bin/bash
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/govc" && go build -o "$here/bin/govc" .
