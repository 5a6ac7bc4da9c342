#!/usr/bin/env python3
"""Development aid: mutation testing of the checks.
  mutants.py filter MUTANTS.jsonl OUT.jsonl N    keep a random N which build and pass the existing tests
  mutants.py kill SURVIVORS.jsonl OUT.jsonl [PROP...]   run the checks (VH_SCALE) against each; stop at the first detection
Mutants come from tools/mutate (go run . /repo)."""
import json, os, random, shutil, subprocess, sys, threading, queue, tempfile
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BASE = os.environ.get("BASE", "/repo")

def env():
    out = subprocess.run(["bash", "-c", f". {root}/harness/env.sh; env -0"], capture_output=True).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)

def apply(tree, m):
    p = os.path.join(tree, m["File"])
    s = open(p, "rb").read()
    assert s[m["Off"]:m["Off"] + m["Len"]] == m["Old"].encode()
    open(p, "wb").write(s[:m["Off"]] + m["New"].encode() + s[m["Off"] + m["Len"]:])

def restore(tree, m):
    shutil.copy(os.path.join(BASE, m["File"]), os.path.join(tree, m["File"]))

def tree():
    t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run(["cp", "-a", BASE + "/.", t], check=True)
    return t

def pool(items, nworkers, work, out):
    q = queue.Queue()
    for i in items: q.put(i)
    lock = threading.Lock()
    def run():
        t = tree()
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(t, m)
            try: r = work(t, m)
            finally: restore(t, m)
            if r is not None:
                with lock:
                    out.write(json.dumps(r) + "\n"); out.flush()
        shutil.rmtree(t)
    ts = [threading.Thread(target=run) for _ in range(nworkers)]
    for t in ts: t.start()
    for t in ts: t.join()

def main():
    what = sys.argv[1]
    ms = [json.loads(l) for l in open(sys.argv[2])]
    e = env()
    if what == "filter":
        random.seed(int(os.environ.get("SEED", "1"))); random.shuffle(ms)
        ms = ms[:int(sys.argv[4])]
        def work(t, m):
            c = "go build ./... && go vet . ./cmd/... && timeout 25 go test -timeout 15s ./..."
            r = subprocess.run(["bash", "-c", c], cwd=t, env=e, capture_output=True)
            return m if r.returncode == 0 else None
        pool(ms, 8, work, open(sys.argv[3], "w"))
    else:
        W = "C02 C16 C13 C09 C19 C27 C21 C08 C01 C12 C07 C18 C26 C10 C20 C22 C28 C23 C24 C25 C17 C11 C03 C04 C05 C06 C14 C15".split()
        R = "C04 C03 C12 C17 C19 C05 C14 C15 C08 C06 C27 C07 C11 C18 C10 C25 C26 C20 C22 C28 C23 C24 C01 C02 C09 C13 C16 C21".split()
        ORDER = {"writer.go": W, "token.go": W, "analysis.go": W, "huffman.go": W, "bitwriter.go": W, "cmd/gzip/main.go": ["C23"], "cmd/gzip/flags.go": ["C23"],
                 "checksum32.go": ["C24"] + R, "header.go": ["C25"] + R}
        if os.environ.get("ALL") == "1": stop = False
        else: stop = True
        def work(t, m):
            order = sys.argv[4:] or ORDER.get(m["File"], ["C24", "C27"] + R if m["File"].startswith("enum_") else R)
            hit = []
            w = tempfile.mkdtemp(prefix="kill.", dir="/tmp")
            try:
                subprocess.run(["cp", "-a", f"{root}/harness", w], check=True)
                subprocess.run(["sed", "-i", f"s#=> /repo#=> {t}#", f"{w}/harness/go.mod"], check=True)
                built = set()
                def build(name, pkg=".", *flags, **env):
                    if name in built: return True
                    r = subprocess.run(["go", "build", *flags, "-o", f"{w}/{name}", pkg], cwd=f"{w}/harness", env=dict(e, **env), capture_output=True, text=True)
                    if r.returncode: m["broken"] = r.stderr[-300:]; return False
                    built.add(name); return True
                for p in order:
                    if not build("vh-main", CGO_ENABLED="0"): break
                    modes = subprocess.run([f"{w}/vh-main", "modes", p], capture_output=True, text=True).stdout.split()
                    if "race" in modes: build("vh-race", ".", "-race", CGO_ENABLED="1")
                    if "386" in modes or p == "C26": build("vh-386", GOARCH="386", CGO_ENABLED="0")
                    if p == "C23": build("vh-gzip", "github.com/chronos-tachyon/flate/cmd/gzip", CGO_ENABLED="0")
                    r = subprocess.run([f"{w}/vh-main", "run", p, "quick", w, w], env=e, capture_output=True, text=True)
                    if r.returncode and "VIOLATION" not in r.stdout: m["out"] = (r.stdout[-500:], r.stderr[-1500:])
                    if r.returncode:
                        hit.append(p if "VIOLATION" in r.stdout else p + "?")
                        if stop: break
            finally:
                shutil.rmtree(w, ignore_errors=True)
            m["hit"] = hit
            return m
        pool(ms, int(os.environ.get("NW", "2")), work, open(sys.argv[3], "a"))
main()
