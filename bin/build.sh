#!/bin/bash
# Builds the simulated program from the current sources of /repo into /verif/.build.
set -e
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")/.." && pwd)"
b="$here/.build"
mkdir -p "$b"
(cd "$here/sim/rewrite" && go build -o "$b/rewrite" .)
"$b/rewrite" -repo /repo -out "$b" -runtime "$here/sim/vsim" -driver "$here/sim/drv"
cd /repo && go build -race -overlay "$b/overlay.json" -o "$b/drv" ./vsim/drv
