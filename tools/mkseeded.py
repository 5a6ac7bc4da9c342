#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeded_defs.py and validates each one in a scratch copy:
the patch applies and builds, the existing tests pass, demo.sh exits 0 without it and nonzero with it.
  mkseeded.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
sys.path.insert(0, here)
from seeded_defs import DEFS, HELPERS

DEMO = '''#!/bin/bash
# exit 0: the property's behaviour is as it should be; nonzero: it is not
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" >"$t/overlay.json"
PRE
timeout 280 go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 250s @@-run '^TestDemo$' .
'''

def env():
    out = subprocess.run(["bash", "-c", f". {root}/harness/env.sh; env -0"], capture_output=True).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)

def run(cmd, cwd, e):
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)

def main():
    e = env(); bad = 0
    only = sys.argv[1:]
    for d in DEFS:
        if only and d["id"] not in only: continue
        out = os.path.join(root, "seeded", d["id"])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", t], check=True)
            demo = DEMO.replace("PRE\n", d.get("pre", "")).replace("@@", d.get("flags", ""))
            open(f"{out}/demo.sh", "w").write(demo); os.chmod(f"{out}/demo.sh", 0o755)
            open(f"{out}/demo_test.go.txt", "w").write(HELPERS(d.get("imports", [])) + d["demo"])
            r = run(["bash", f"{out}/demo.sh"], t, e)
            if r.returncode: print(d["id"], "DEMO FAILS UNCHANGED", r.stdout[-1500:], r.stderr[-1500:]); bad += 1; continue
            for f, old, new in d["edits"]:
                s = open(f"{t}/{f}").read()
                if s.count(old) != 1: print(d["id"], "EDIT matches", s.count(old)); bad += 1
                open(f"{t}/{f}", "w").write(s.replace(old, new))
            diff = run(["git", "diff"], t, e).stdout
            open(f"{out}/patch.diff", "w").write(diff)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
            r = run(["bash", "-c", "go build ./... && go test -timeout 100s ./..."], t, e)
            if r.returncode: print(d["id"], "BUILD/TESTS FAIL", r.stdout[-1500:], r.stderr[-500:]); bad += 1; continue
            r = run(["bash", f"{out}/demo.sh"], t, e)
            if r.returncode == 0: print(d["id"], "DEMO PASSES WITH PATCH"); bad += 1; continue
            print(d["id"], "ok", r.returncode, [l for l in r.stdout.splitlines() if "demo" in l][:1])
        finally:
            shutil.rmtree(t)
    sys.exit(bad != 0)
main()
