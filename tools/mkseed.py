#!/usr/bin/env python3
"""mkseed.py: creates /verif/seeded/<id> from a python spec file: dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, test)"""
import sys, os, subprocess, tempfile, json, runpy, shutil
DEMO = """#!/bin/bash
# cwd: the repository. Runs the test beside this file inside the package, through an overlay.
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/planted_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run 'TestPlantedDemo' ./%(pkg)s
"""
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        pkg = s.get("pkg", "deflect")
        with tempfile.TemporaryDirectory() as t:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r", "HEAD"])
            try:
                for f, old, new in s["edits"]:
                    p = f"{t}/r/{f}"
                    src = open(p).read()
                    assert src.count(old) == 1, (s["id"], f, src.count(old), old)
                    open(p, "w").write(src.replace(old, new))
                subprocess.call(["gofmt", "-l", "."], cwd=t + "/r")
                diff = subprocess.check_output(["git", "diff"], cwd=t + "/r").decode()
            finally:
                subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"])
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
        open(d + "/demo_test.go", "w").write(s["test"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        subprocess.call(["gofmt", "-w", d + "/demo_test.go"])
