#!/usr/bin/env python3
"""development only: apply each planted bug to /repo, run its property's quick check, undo. bugs.py [ID...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
assert not subprocess.run(["git", "-C", R, "status", "--porcelain", "-uno"], stdout=subprocess.PIPE).stdout
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", "tools/check.py", prop, "--tier", "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("violated") or l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if p.returncode == 1 else f"MISSED rc={p.returncode}", f"{time.time()-t:.0f}s", (v or p.stdout.splitlines()[-1:])[0][:200], flush=True)
