"""Driver side of the simulator: builds it, spreads seeds over the cores,
collects statistics, failing seeds and history hashes."""
import json, os, struct, subprocess, sys, threading, time, tempfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = ["ec_alloc", "ec_realloc", "libc_alloc", "regcomp_nomem", "fs_error", "stream_error",
         "callback_error", "terminal_event", "stdio_error"]
CORES = min(8, os.cpu_count() or 1)


def build():
    p = subprocess.run(["bash", os.path.join(V, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-4000:])
        return None
    return p.stdout.strip().splitlines()[-1]


def read_tape_head(path):
    with open(path, "rb") as f:
        d = f.read(16 + 32 + 128 + 1024 + 8)
    n, seed = struct.unpack_from("<QQ", d, 0)
    s = lambda o, l: d[o:o + l].split(b"\0")[0].decode("utf-8", "replace")
    return {"seed": seed, "cls": s(16, 32), "key": s(48, 128), "msg": s(176, 1024)}


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "ops": 0, "fault_ops": 0, "failed_ops": 0, "ok_under_fault": 0, "switches": 0, "checks": 0, "other": 0}
        self.fired = {}
        self.probes = {}
        self.hashes = {}   # world -> set
        self.nontrivial = {}
        self.world_runs = {}
        self.cpu = 0.0

    def add(self, world, j, hashfile):
        for k in self.d:
            self.d[k] += j.get(k, 0)
        self.world_runs[world] = self.world_runs.get(world, 0) + j.get("runs", 0)
        for k, (a, b) in j.get("fired", {}).items():
            x = self.fired.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        for k, v in j.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        try:
            d = open(hashfile, "rb").read()
        except OSError:
            return
        hs = self.hashes.setdefault(world, set())
        nt = self.nontrivial.setdefault(world, set())
        for i in range(0, len(d) - 15, 16):
            h, fl = struct.unpack_from("<QQ", d, i)
            hs.add(h)
            if fl:
                nt.add(h)


def batch(exe, world, frm, stride, seconds, classes, tmp, tag, count=None, running=None):
    """one simulator process; returns (json or None, failure or None, next seed)"""
    tape, prog, hf = (os.path.join(tmp, f"{tag}.{x}") for x in ("tape", "prog", "hash"))
    for f in (tape, prog, hf):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "batch", "--world", world, "--from", str(frm), "--stride", str(stride), "--seconds", f"{seconds:.2f}",
           "--tape", tape, "--progress", prog, "--hashes", hf]
    if classes:
        cmd += ["--classes", ",".join(classes)]
    if count:
        cmd += ["--count", str(count)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if running is not None:
        running[tag] = p
    try:
        out = p.communicate(timeout=seconds + 120)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0]
    if p.returncode == 0:
        j = json.loads(out.decode("utf-8", "replace").strip().splitlines()[-1])
        return j, None, j["next"], hf
    head = read_tape_head(tape) if os.path.exists(tape) else {"seed": frm, "cls": "", "key": "", "msg": ""}
    head["rc"] = p.returncode
    if not head["cls"]:
        head["cls"] = "memory"
        head["key"] = f"exit{p.returncode}"
    head["world"] = world
    head["batch_from"] = frm
    head["stride"] = stride
    j = {}
    try:
        d = open(prog, "rb").read()
        q = struct.unpack_from("<64Q", d, 64)
        j = {"runs": q[0], "ops": q[1], "fault_ops": q[2], "switches": q[3], "checks": q[4], "other": q[5],
             "fired": {KINDS[k]: (q[8 + k], q[32 + k]) for k in range(len(KINDS)) if q[32 + k]}}
    except (OSError, struct.error):
        pass
    return j, head, head["seed"] + stride, hf


def explore(exe, plan, classes, base, wall, on_failure, max_fail=1, tmp=None):
    """plan: list of (world, weight). Every core walks all worlds, taking
    every CORES-th seed. on_failure(failure) -> True to stop everything."""
    own = tmp is None
    tmp = tmp or tempfile.mkdtemp(prefix="sim.", dir=os.path.join(V, "build"))
    st = Stats()
    stop = threading.Event()
    running = {}
    lock = threading.Lock()
    tot = sum(w for _, w in plan)
    deadline = time.time() + wall

    def worker(i):
        # stagger the worlds so that all of them start early
        order = plan[i % len(plan):] + plan[:i % len(plan)]
        for world, w in order:
            frm = base + i
            end = time.time() + wall * w / tot
            while not stop.is_set():
                left = min(end, deadline) - time.time()
                if left <= 0.02:
                    break
                j, fail, frm, hf = batch(exe, world, frm, CORES, left, classes, tmp, f"w{i}",
                                        2000 if world.startswith("log/") else None, running)  # components are never unregistered
                with lock:
                    if stop.is_set():
                        return
                    st.add(world, j or {}, hf)
                    if fail and not stop.is_set() and on_failure(fail):
                        stop.set()
                        for q in list(running.values()):
                            q.kill()
            if stop.is_set():
                return

    ths = [threading.Thread(target=worker, args=(i,)) for i in range(CORES)]
    t0 = time.time()
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    st.wall = time.time() - t0
    if own:
        shutil.rmtree(tmp, ignore_errors=True)
    return st
