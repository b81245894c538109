#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--wall SECONDS]
Decides one property by seeded simulation with fault injection.
exit 0: held on everything explored; exit 1 + VIOLATION line: violated."""
import argparse, json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from props import PROPS

V = engine.V


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) key=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(cls=m.group(2), key=m.group(3), rx=re.compile(m.group(4)), text=m.group(5)))
    except OSError:
        pass
    return out


def run(cmd, timeout, **kw):
    """subprocess.run that gives up instead of waiting for ever"""
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "")


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--wall", type=float, default=0)
    a = ap.parse_args()
    prop = a.property
    cfg = PROPS[prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    wall = a.wall or (cfg.get("thorough", 780) if tier == "thorough" else cfg.get("quick", 80))
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = 1
    t0 = time.time()
    exe = engine.build()
    if not exe:
        print("the simulator could not be built from the current tree", file=sys.stderr)
        return 2
    tbuild = time.time() - t0
    base = (vseed & 0xffffff) * 100_000_000 + int(prop[1:]) * 1_000_000
    classes = cfg["classes"]

    # determinism: the same seeds give the same histories in two processes
    det = []
    for world, _ in cfg["plan"][:3]:
        hs = [run([exe, "hash", "--world", world, "--from", str(base), "--count", "40"], 40).stdout for _ in range(2)]
        det.append(hs[0] == hs[1] and len(hs[0]) > 0)

    known = known_findings(prop)
    seen_known = set()
    result = {}
    unreproduced = []
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    env = dict(os.environ, SIM_QUIET="1")
    csel = ["--classes", ",".join(classes)] if classes else []

    def gate(f):
        """confirm in fresh processes, minimise, replay"""
        for k in known:
            if k["cls"] == f["cls"] and k["key"] == f["key"] and k["rx"].search(f["msg"]):
                seen_known.add(k["text"])
                return False
        if len(unreproduced) > 3 and f["cls"] == unreproduced[-1]["cls"]:
            return False
        out = os.path.join(rdir, f"{prop}-{f['world'].replace('/', '_')}-{f['seed']}.txt")
        p = run([exe, "find", "--world", f["world"], "--from", str(f["seed"]), "--out", out, "--property", prop] + csel, 240)
        if p.returncode != 0:
            n = (f["seed"] - f["batch_from"]) // f["stride"] + 1
            if n > 1:
                p = run([exe, "findseq", "--world", f["world"], "--from", str(f["seed"]), "--stride", str(f["stride"]),
                         "--count", str(n), "--out", out, "--property", prop] + csel, 240)
        if p.returncode == 0:
            r = run([exe, "replay", out] + csel, 120, env=env)
            if r.returncode == 1 and "REPLAY-VIOLATION" in r.stdout:
                result.update(f, replay=out, found=p.stdout.strip(), line=r.stdout.strip())
                return True
        unreproduced.append(dict(f, out=p.stdout.strip()[-300:]))
        return False

    st = engine.explore(exe, cfg["plan"], classes, base, wall, gate)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['text']}")

    distinct = sum(len(s) for s in st.hashes.values())
    nontrivial = sum(len(s) for s in st.nontrivial.values())
    sample = []
    for world, _ in cfg["plan"][:2]:
        p = run([exe, "seed", "--world", world, "--from", str(base)] + csel, 60)
        sample.append({"world": world, "seed": base, "history": p.stdout.splitlines()[:30]})
    h = max(st.wall, 1e-6) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": st.d["runs"],
            "distinct_nontrivial": nontrivial,
            "rule": "one evaluation is one simulated run: a seed decides the workload, the fault plan of every operation and, where tasks "
                    "run concurrently, every switch. Distinct: different hash of the recorded history (operations, results, faults fired). "
                    "Non-trivial: at least one injected fault fired or at least one task switch happened. Decides: " + cfg["what"],
            "samples": sample,
            "distinct_histories": distinct,
            "simulated_operations": st.d["ops"],
            "operations_with_faults": st.d["fault_ops"],
            "checks_evaluated": st.d["checks"],
            "task_switches": st.d["switches"],
            "runs_ended_by_other_properties": st.d["other"],
            "runs_per_world": st.world_runs,
            "runs_per_hour": int(st.d["runs"] / h),
            "simulated_time": "the library reads no clock; progress is counted in simulated operations and in decision points",
            "faults_fired": {k: v[0] for k, v in st.fired.items()},
            "fault_points_reached": {k: v[1] for k, v in st.fired.items()},
            "probes": st.probes,
            "deterministic": all(det),
            "unreproduced": unreproduced[:5],
            "real_code": "all of /repo/src (rebuilt from the working tree), glibc regex, libyaml",
            "stubs": cfg.get("stubs", "heap allocator (simulated), file system (simulated), regcomp failures; line editor library and terminal where used"),
            "build_s": round(tbuild, 1),
        },
        "assumptions": ["single-threaded library use, as documented; concurrency is cooperative interleaving of independent users",
                        cfg.get("oracle", "oracle: " + "sim/model.cc")],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if result else 0,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{prop}: {st.d['runs']} runs, {nontrivial} distinct non-trivial histories, {st.d['ops']} operations, "
          f"faults fired: {sum(v[0] for v in st.fired.values())}, {ev['wall_s']} s, deterministic={all(det)}")
    if result:
        print(f"violated: [{result['cls']}] {result['key']}: {result['msg']}")
        print(result["line"])
        print(f"VIOLATION property={prop} replay={result['replay']}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
