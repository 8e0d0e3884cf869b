"""C15: the install step under crashes and write faults at every file-system operation, and its recovery."""
import hashlib, json, mmap, os, random, shutil, signal, struct, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vf_build
KINDS = {"none": 0, "crash": 1, "torn_crash": 2, "enospc": 3, "eio": 4, "short_write": 5, "eintr": 6}
PARTS = ["python", "include", "src", "install.sh", "env.sh", "Makefile", "kernels.mk"]

def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = hashlib.sha256(open(p, "rb").read()).hexdigest() if not os.path.islink(p) else "link:" + os.readlink(p)
    return out

def diff(a, b):
    r = []
    for k in sorted(set(a) | set(b)):
        if k not in b: r.append("extra " + k)
        elif k not in a: r.append("missing " + k)
        elif a[k] != b[k]: r.append("different " + k)
    return r

class World:
    def __init__(self, simdir):
        self.sim = simdir; self.tmp = tempfile.mkdtemp(prefix="vf-c15-"); self.base = self.tmp + "/base"; os.mkdir(self.base)
        for p in PARTS:
            s = os.path.join(vf_build.REPO, p)
            if os.path.isdir(s): shutil.copytree(s, self.base + "/" + p, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "*.o", "*.so"))
            elif os.path.exists(s): shutil.copy2(s, self.base)
        self.refs = {}; self.lk = threading.Lock(); self.n = 0; self.installs = 0; self.fired = {}; self.op_sites = set()
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def new(self):
        with self.lk: self.n += 1; d = "%s/w%d" % (self.tmp, self.n)
        shutil.copytree(self.base, d + "/tree", symlinks=True); return d
    def install(self, d, st):
        """one run of the install step; returns (exit status or -signal, faults fired, operations, log)"""
        f = d + "/shim"; size = 24 + (1 << 16)
        with open(f, "wb") as h: h.write(struct.pack("6i", 0, st.get("at", -1), KINDS[st.get("kind", "none")], st.get("persist", 0), 0, 0)); h.truncate(size)
        m = st["machine"]
        env = vf_build.std_env(self.sim + "/standins", CAKE_HOME=d + "/tree", BLIS_INSTALL_PATH=d + "/tree", LD_PRELOAD=self.sim + "/shim.so", VF_SHIM=f, PYTHONHASHSEED=str(st.get("hashseed", 0)), TMPDIR=d,
                               VF_CLOCK=str(1700000000 + st.get("clock", 0)), TZ=st.get("tz", "UTC0"), LC_ALL=st.get("lc", "C.UTF-8"),
                               SIM_CPUS=str(m["cpus"]), SIM_THREADS=str(m["threads"]), SIM_SOCKETS=str(m["sockets"]), SIM_DROP=str(st.get("drop", 0)))
        p = subprocess.Popen(["/bin/bash", "./install.sh"], cwd=d + "/tree", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try: out, _ = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); return ("timeout", 0, 0, [], "")
        b = open(f, "rb").read(); n, _, _, _, fired, nlog = struct.unpack("6i", b[:24]); log = b[24:24 + min(nlog, 1 << 16)].decode("utf8", "replace").split("\n")
        with self.lk:
            self.installs += 1
            if fired: self.fired[st["kind"]] = self.fired.get(st["kind"], 0) + 1
        return (p.returncode, fired, n, [x for x in log if x], out.decode("utf8", "replace"))
    def ref(self, m):
        key = json.dumps(m, sort_keys=True)
        with self.lk: r = self.refs.get(key)
        if r: return r
        d = self.new(); rc, _, n, log, out = self.install(d, {"machine": m}); snap = snapshot(d + "/tree"); comp = ""
        if rc == 0:
            for s in ("src/block_sizing.cpp", "src/cake_sgemm_k_first.cpp", "src/kernels/haswell/dense.cpp"):
                if not os.path.exists(d + "/tree/" + s): comp = s + " does not exist"; break
                q = subprocess.run(["g++"] + vf_build.BASE + ["-I" + d + "/tree/include", "-fsyntax-only", s], cwd=d + "/tree", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode: comp = s + ": " + q.stdout.strip().split("\n")[0][:300]; break
        r = {"rc": rc, "snap": snap, "n": n, "log": log, "comp": comp, "out": out}; shutil.rmtree(d, ignore_errors=True)
        with self.lk: self.refs[key] = r
        return r

def desc(s): return "%s%s%s with %d cores%s" % ("install", " cut by %s%s at operation %d" % (s["kind"], " (persistent)" if s.get("persist") else "", s["at"]) if s.get("kind", "none") != "none" else "", " with lscpu lines missing" if s.get("drop") else "", s["machine"]["cpus"] // (s["machine"]["threads"] * s["machine"]["sockets"]), "".join(", %s %s" % (k, s[k]) for k in ("clock", "tz", "lc", "hashseed") if s.get(k)))

def run(w, plan):
    """executes a history of installs; returns None or (class, message)"""
    d = w.new(); tr = []
    try:
        for i, s in enumerate(plan["steps"]):
            ref = w.ref(s["machine"])
            if ref["rc"] != 0: return ("clean-install-fails", "a first install ends with status %s: %s" % (ref["rc"], ref["out"].strip()[-200:])), "ref"
            if ref["comp"]: return ("does-not-compile", "after a clean install (%s): %s" % (desc({"machine": s["machine"]}), ref["comp"])), "ref"
            rc, fired, n, log, out = w.install(d, s); tr.append((rc, fired, n)); last = i == len(plan["steps"]) - 1; hist = "; ".join(desc(x) for x in plan["steps"][:i + 1]); at = log[s["at"]] if s.get("at", -1) >= 0 and s["at"] < len(log) else ""
            if rc == "timeout": return ("install-hangs", hist), str(tr)
            if not fired and not s.get("drop") and rc != 0: return ("reinstall-fails", "%s: the last install ends with status %d: %s" % (hist, rc, out.strip()[-300:])), str(tr)
            if rc == 0 and not s.get("drop"):
                df = diff(snapshot(d + "/tree"), ref["snap"])
                if df:
                    cls = "incomplete-install-reports-success" if fired else "reinstall-differs"
                    return (cls, "%s%s: %d files are not as a clean install leaves them: %s" % (hist, " (%s)" % at if at else "", len(df), ", ".join(df[:5]))), str(tr)
        return None, str(tr)
    finally: shutil.rmtree(d, ignore_errors=True)

M = lambda cpus, t=1, s=1: {"cpus": cpus, "threads": t, "sockets": s}
MACH = [M(4), M(8, 2), M(1), M(12), M(2, 2), M(6, 1, 1), M(32, 2, 2), M(3)]
CLOCKS = [0, 0, 1, 60, 3600, 86400, 86400 * 40, 86400 * 800, -86400 * 3000, 86400 * 6000]
def vary(r, s):
    """wall clock, time zone, locale and hash seed of one install"""
    s["hashseed"] = r.randrange(1000); s["clock"] = r.choice(CLOCKS) + r.randrange(100); s["tz"] = r.choice(["UTC0", "XXX-9", "YYY8"]); s["lc"] = r.choice(["C", "C.UTF-8"]); return s
def clean(m): return {"machine": m, "kind": "none", "at": -1}

def plans(w, seed, tier):
    """all single faults followed by a clean run (in seeded order), then random histories"""
    r = random.Random(seed * 7919 + 15); m = MACH[0]; n = w.ref(m)["n"]
    first = [{"steps": [clean(m), clean(m)]}, {"steps": [vary(r, clean(m)), vary(r, clean(m)), vary(r, clean(m))]}, {"steps": [dict(clean(m), clock=86400 * 40, tz="XXX-9", lc="C", hashseed=7)]}, {"steps": [clean(M(8, 2)), clean(M(12)), clean(m)]}, {"steps": [clean(M(12)), clean(m)]}]
    single = []
    for at in range(n):
        for k in KINDS:
            if k == "none": continue
            for persist in ((0, 1, 2) if k == "enospc" else (0, 1) if k == "eio" else (0,)):
                single.append({"steps": [{"machine": m, "kind": k, "at": at, "persist": persist, "hashseed": r.randrange(1000)}, vary(r, clean(m))]})
    r.shuffle(single)
    for p in first: yield p, False
    pri = [p for p in single if p["steps"][0]["kind"] in ("crash", "torn_crash")]; rest = [p for p in single if p not in pri]
    k = 0
    for p in pri + rest: yield p, True
    while True:
        steps = []
        for i in range(r.randrange(1, 5)):
            mm = r.choice(MACH); k = r.choice(["crash", "crash", "torn_crash", "enospc", "eio", "short_write", "eintr", "none", "none"])
            s = {"machine": mm, "kind": k, "at": r.randrange(n + 2) if k != "none" else -1, "persist": r.randrange(3) if k in ("enospc", "eio") else 0}; vary(r, s)
            if k == "none" and r.random() < 0.2: s["drop"] = r.choice([2, 32, 64, 34])
            steps.append(s)
        steps.append(vary(r, clean(r.choice(MACH)))); yield {"steps": steps}, False

def minimise(w, plan, cls):
    D = {"clock": 0, "tz": "UTC0", "lc": "C.UTF-8", "hashseed": 0, "drop": 0, "persist": 0}
    ok = lambda q: (lambda v: v is not None and v[0] == cls)(run(w, q)[0])
    cur = plan
    again = True
    while again:
        again = False
        for i in range(len(cur["steps"])):
            if len(cur["steps"]) == 1: break
            q = {"steps": cur["steps"][:i] + cur["steps"][i + 1:]}
            if ok(q): cur = q; again = True; break
    for i, s in enumerate(cur["steps"]):
        for ch in ({"drop": 0}, {"persist": 0}, {"machine": MACH[0]}, {"clock": 0}, {"tz": "UTC0"}, {"lc": "C.UTF-8"}, {"hashseed": 0}, {"kind": "none", "at": -1, "persist": 0}):
            if all(s.get(k, D.get(k)) == v for k, v in ch.items()): continue
            q = {"steps": [dict(x) for x in cur["steps"]]}; q["steps"][i].update(ch)
            if ok(q): cur = q; s = cur["steps"][i]
    return cur

def search(simdir, seed, tier, budget, workers=8):
    t0 = time.time(); w = World(simdir); st = {"executions": 0, "distinct": set(), "single_done": 0, "single_total": 0, "hist": 0}; viol = []; samples = []
    try:
        g = plans(w, seed, tier); lk = threading.Lock(); stop = threading.Event()
        m = w.ref(MACH[0]); st["operations"] = m["n"]; st["op_log"] = m["log"]
        st["single_total"] = m["n"] * (len(KINDS) - 1 + 3)
        def work():
            while not stop.is_set() and time.time() - t0 < budget:
                with lk:
                    p, single = next(g)
                v, tr = run(w, p)
                with lk:
                    st["executions"] += 1; st["distinct"].add(json.dumps(p, sort_keys=True)); st["single_done"] += single; st["hist"] += not single
                    if len(samples) < 3 and st["executions"] % 17 == 5: samples.append({"plan": p, "observed (status, faults fired, operations)": tr})
                if v: 
                    with lk: viol.append((v, p))
                    stop.set()
        with ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(work) for _ in range(workers)]: f.result()
        out = None
        if viol:
            viol.sort(key=lambda x: (len(x[1]["steps"]), json.dumps(x[1], sort_keys=True))); (cls, msg), p = viol[0]
            v2, _ = run(w, p)
            if not v2 or v2[0] != cls: out = {"unstable": True, "class": cls, "message": msg, "plan": p}
            else: q = minimise(w, p, cls); v3, _ = run(w, q); out = {"format": "cake-install-replay 1", "property": "C15", "class": v3[0], "message": v3[1], "plan": q}
        return out, {"evaluations": st["executions"], "distinct": len(st["distinct"]), "installs_run": w.installs, "single_faults_enumerated": st["single_done"], "single_faults_total": st["single_total"], "random_histories": st["hist"], "file_operations_per_install": st["operations"], "operations": st["op_log"], "faults_fired": w.fired, "samples": samples, "seconds": time.time() - t0}
    finally: w.close()

def replay(simdir, j):
    w = World(simdir)
    try:
        v, tr = run(w, j["plan"]); print(v[0] if v else "no violation"); print(v[1] if v else tr)
        if not v: return 0
        same = v[0] == j["class"] and v[1] == j["message"]; print("reproduced exactly" if same else "violates, but differs from the recorded history"); return 1 if same else 4
    finally: w.close()
