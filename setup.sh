#!/bin/bash
# Builds the engine into bin/ (ignored by git) when it is missing or older than its sources.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOWORK=off CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence" "$here/replays"
if [ ! -x "$here/bin/engine" ] || [ -n "$(find "$here/engine" -newer "$here/bin/engine" -name '*.go' -o -newer "$here/bin/engine" -name 'go.*')" ]; then
  (cd "$here/engine" && go build -o "$here/bin/engine" .)
fi
