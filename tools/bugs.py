#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against a scratch copy of /repo with the bug applied.

bugs.py [--jobs K] [--all-props] [--out FILE] [ID...]      (works in /tmp/bg only; a development aid)"""
import sys, os, json, subprocess, shutil, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = sys.argv[1:]
def opt(n, d):
    if n in A:
        i = A.index(n); v = A[i + 1]; del A[i:i + 2]; return v
    return d
JOBS, OUT = int(opt("--jobs", 1)), opt("--out", "/tmp/bugs.jsonl")
IDS = A or sorted(os.listdir(ROOT + "/seeded"))
BASE = "/tmp/bg"
def work(k, q, lock):
    d = f"{BASE}/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    shutil.copy("/repo/Cargo.lock", d + "/repo/Cargo.lock")
    shutil.copytree(ROOT, d + "/verif", ignore=shutil.ignore_patterns("work", ".git", "seeded", "evidence"))
    os.makedirs(d + "/verif/evidence")
    p = d + "/verif/harness/Cargo.toml"
    t = open(p).read().replace('"/repo', f'"{d}/repo')
    open(p, "w").write(t)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            break
        m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", d + "/repo", "apply", f"{ROOT}/seeded/{i}/patch.diff"], check=True)
        t0 = time.time()
        r = subprocess.run(["python3", "checker/check.py", m["property"], "--tier", "quick"], cwd=d + "/verif",
                           capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        res = {"id": i, "property": m["property"], "rc": r.returncode, "seconds": round(time.time() - t0), "said": v[:3],
               "tail": "" if r.returncode in (0, 1) else (r.stdout + r.stderr)[-1500:]}
        with lock:
            print(("CAUGHT " if r.returncode == 1 and v else "MISSED ") + json.dumps(res), flush=True)
            open(OUT, "a").write(json.dumps(res) + "\n")
    shutil.rmtree(d, ignore_errors=True)
q = queue.Queue()
[q.put(i) for i in IDS]
lock = threading.Lock()
ts = [threading.Thread(target=work, args=(k, q, lock)) for k in range(JOBS)]
[t.start() for t in ts]
[t.join() for t in ts]
