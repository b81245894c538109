#!/usr/bin/env python3
"""development: run worlds, group the failures. dev.py SECONDS world [world...]"""
import sys, collections
import engine
exe = engine.build()
if not exe: sys.exit(3)
secs = float(sys.argv[1])
groups = collections.OrderedDict()
def onf(f):
    m = f["msg"] if f["cls"] in ("memory",) else f["msg"][:60]
    k = (f["world"], f["cls"], f["key"], m if f["cls"] in ("memory","abort","leak") else "")
    groups.setdefault(k, []).append(f)
    return False
import os
cl = os.environ.get("CLASSES", "")
st = engine.explore(exe, [(w, 1) for w in sys.argv[2:]], cl.split(",") if cl else [], int(os.environ.get("BASE", "1000")), secs, onf)
for k, v in sorted(groups.items(), key=lambda x: -len(x[1])):
    print(len(v), *k[:3], "seed", v[0]["seed"], "|", v[0]["msg"][:330])
print(st.d, st.fired, st.probes)
print({w: (st.world_runs[w], len(st.hashes.get(w, ()))) for w in st.world_runs})
