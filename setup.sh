#!/bin/bash
# builds the explorer once, so that later builds find everything in the build cache
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p .build evidence replays
(cd mc && go vet . && go build -o ../.build/verifmc .) || exit 2
rm -f .build/verifmc
