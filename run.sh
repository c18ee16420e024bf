#!/bin/bash
# usage: run.sh <property> [quick|thorough]     explore one property against /repo's working tree
#        run.sh replay <file>                   re-execute a recorded counterexample
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local VERIF_ROOT=$ROOT
mkdir -p .build
BIN=$ROOT/.build/verifmc.$$
ERR=$ROOT/.build/stderr.$$
trap '/bin/rm -f "$BIN" "$ERR"' EXIT
(cd mc && go build -o "$BIN" .) || { echo "build of the harness failed"; exit 2; }
if [ "$1" = replay ]; then "$BIN" replay "$2"; else "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" 2>"$ERR"; fi
rc=$?
[ -s "$ERR" ] && head -c 4000 "$ERR" >&2
# The language runtime ended the process (stack overflow, concurrent map access, ...) in the library
if [ $rc -gt 1 ] && grep -q '^fatal error: ' "$ERR" && grep -q 'lubgr/deflect/' "$ERR"; then
  mkdir -p replays && head -c 20000 "$ERR" > "replays/$1.crash.txt"
  echo "$1: $(grep -m1 '^fatal error: ' "$ERR")"
  echo "VIOLATION property=$1 replay=$ROOT/replays/$1.crash.txt"
  rc=1
fi
exit $rc
