#!/bin/bash
# usage: seed.sh <id>     validates /verif/seeded/<id> in a scratch worktree: builds, stable tests pass,
# demo passes on the unchanged tree and fails with the patch.
set -u
id=$1; dir=/verif/seeded/$id
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'git -C /repo worktree remove --force "$w/r" >/dev/null 2>&1; /bin/rm -rf "$w"' EXIT
git -C /repo worktree add -q --detach "$w/r" HEAD || exit 1
cd "$w/r" || exit 1
bash "$dir/demo.sh" >"$w/log" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$w/log"; exit 1; }
git apply "$dir/patch.diff" || { echo "$id: patch doesn't apply"; exit 1; }
go build ./... || { echo "$id: doesn't build"; exit 1; }
go test -vet=off -count=1 ./... >"$w/log" 2>&1 || { echo "$id: existing tests fail"; grep -e '--- FAIL' "$w/log" | head; exit 1; }
if bash "$dir/demo.sh" >"$w/log" 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
echo "$id: ok ($(grep -m1 -E 'demo_test.go:[0-9]+:|panic' "$w/log" | cut -c1-150))"
