#!/bin/bash
# usage: check.sh PROPERTY quick|thorough — builds the verifier if needed and runs one check
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
bin="$here/bin/govc"
if [ ! -x "$bin" ] || [ -n "$(find "$here/govc" -name '*.go' -newer "$bin" 2>/dev/null | head -1)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/govc" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the verifier"; exit 2; }
fi
mkdir -p "$here/evidence"
exec "$bin" check -verif "$here" -repo /repo -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}"
