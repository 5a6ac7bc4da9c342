#!/usr/bin/env python3
"""Development aid: runs the check of each planted bug's property (quick, without the regression corpus) against a
scratch copy of /repo with the bug applied.  seededrun.py [ID...]; ALLPROPS=1 runs every property's check."""
import json, os, shutil, subprocess, sys, tempfile, time
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = subprocess.run(["bash", "-c", f". {root}/harness/env.sh; env -0"], capture_output=True).stdout
e = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
for d in sys.argv[1:] or sorted(os.listdir(f"{root}/seeded")):
    meta = json.load(open(f"{root}/seeded/{d}/meta.json"))
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", t], check=True)
        subprocess.run(["git", "apply", f"{root}/seeded/{d}/patch.diff"], cwd=t, check=True)
        props = ["C%02d" % i for i in range(1, 28)] if os.environ.get("ALLPROPS") else [meta["property"]]
        hits = []
        for p in props:
            t0 = time.time()
            r = subprocess.run(["bash", f"{root}/tools/against.sh", t, p], env=dict(e, NOCORPUS="1"), capture_output=True, text=True)
            ok = "exit=1" in r.stdout and f"VIOLATION property={p}" in r.stdout
            if ok: hits.append(p)
            if not os.environ.get("ALLPROPS"):
                print(d, p, "caught" if ok else "MISSED", "%.0fs" % (time.time() - t0), flush=True)
                if not ok: print(r.stdout[-600:])
        if os.environ.get("ALLPROPS"): print(d, meta["property"], "caught by", *hits, flush=True)
    finally:
        shutil.rmtree(t)
