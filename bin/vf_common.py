"""Running the simulator on all cores, gating violations, known findings, evidence."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, time
import vf_build, vf_c15
VERIF = vf_build.VERIF
BUDGET = {"quick": {"*": 20, "C15": 20}, "thorough": {"*": 600, "C15": 240}}
MIN_PLANS = {"quick": 400, "thorough": 4000}     # per worker, even on a loaded machine (up to 5 x the budget)
WORKERS = 8
REAL = ["libcake and libcake_kernels: all of src/*.cpp except linear.cpp and autotune_sa.cpp, and the generated kernels, compiled from /repo's working tree", "python/kernel_gen.py, python/grid_gen.py and install.sh (run to generate the kernels and headers)", "the shell pipelines the library starts (sh, grep, tr, head, awk)", "the C and C++ libraries except the functions behind seams"]
STUB = ["OpenMP runtime (libgomp ABI): simulator fibers and scheduler", "malloc family, clocks, popen/pclose, exit/abort, stdio output: simulator", "lscpu, `grep -c ^processor /proc/cpuinfo`, nproc: stand-ins describing the simulated machine"]

def known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]; pat, _, text = rest.partition(" :: "); out.append((pat.strip(), text.strip()))
    return out

def is_known(prop, v):
    for pat, text in known(prop):
        if fnmatch.fnmatchcase(v["class"] + ": " + v["message"], pat): return text
    return None

def write_evidence(prop, tier, seed, cov, t0, nviol, assumptions, level="exploration"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    j = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f: json.dump(j, f, indent=1); f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

def save_replay(prop, v):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    import hashlib
    f = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]))
    with open(f, "w") as h: json.dump(v, h, indent=1); h.write("\n")
    return f

def sim_cmd(sim, lib): return [sim + "/sim"], ["--libs", lib, "--standins", sim + "/standins"]

def replay_file(sim, lib, f, timeout=300):
    c, a = sim_cmd(sim, lib)
    try: r = subprocess.run(c + ["replay"] + a + ["--file", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout

ASSUME = ["The library is compiled with the build's language flags, at -O1 with memory-access instrumentation (vector intrinsics that take pointers become plain loads and stores) for fine-grained runs and at -O2 for coarse runs; kernels written in inline assembly and the ARM and BLIS paths are not run.",
          "Interleavings are sequentially consistent: preemption at every instrumented access, no hardware reordering (racy code is reported by the happens-before check instead).",
          "Sampling: a clean batch is evidence for the explored seeds, not a proof."]

def fresh_run(sim, lib, tmp, plan):
    f = tmp + "/fresh.json"
    with open(f, "w") as h: json.dump({"class": "?", "trace_hash": "?", "plan": plan}, h)
    rc, out = replay_file(sim, lib, f, 120); l = out.splitlines()
    m = re.search(r"^trace hash ([0-9a-f]+)", out, re.M)
    return (l[0], l[1] if len(l) > 1 else "", m.group(1)) if m else (None, str(rc), "")

def check_sim(prop, tier, seed, budget, sim, lib, t0):
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try: return _check_sim(prop, tier, seed, budget, sim, lib, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def _check_sim(prop, tier, seed, budget, sim, lib, t0, tmp):
    if prop == "C19" and os.path.exists(lib + "/linear.err"): raise RuntimeError("src/linear.cpp does not compile over the stand-in torch headers: " + open(lib + "/linear.err").read()[-3000:])
    c, a = sim_cmd(sim, lib); W = WORKERS; ps = []; t1 = time.time()
    for w in range(W):
        cmd = c + ["run"] + a + ["--prop", prop, "--seed", str(seed), "--from", str(w), "--stride", str(W), "--count", "1000000000", "--time", str(budget), "--minplans", str(MIN_PLANS[tier]), "--hardtime", str(min(5 * budget, budget + 240)),
               "--out", "%s/o%d" % (tmp, w), "--inter", "%s/i%d" % (tmp, w), "--stop", tmp + "/stop", "--progress", "%s/p%d" % (tmp, w), "--mintime", "15" if tier == "quick" else "60"]
        ps.append(subprocess.Popen(cmd, stdout=open("%s/l%d" % (tmp, w), "w"), stderr=subprocess.STDOUT))
    lim = min(5 * budget, budget + 240) + 150; died = []
    for w, p in enumerate(ps):
        try: rc = p.wait(timeout=max(1, t1 + lim - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = "timeout"
        if rc not in (0, 1): died.append((w, rc)); open(tmp + "/stop", "w").close()
    viol = []; agg = {}; counts = {}; inter = set(); hist = set(); samples = []
    for w in range(W):
        try: j = json.load(open("%s/o%d" % (tmp, w)))
        except Exception: continue
        for k, v in j.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k != "rss_kb": agg[k] = agg.get(k, 0) + v
        for k, v in j["counts"].items(): counts[k] = counts.get(k, 0) + v
        viol += j["violations"]; samples += j.get("samples", [])[:1]
        b = open("%s/i%d" % (tmp, w), "rb").read(); inter |= {b[i:i + 8] for i in range(0, len(b), 8)}
        b = open("%s/i%dh" % (tmp, w), "rb").read(); hist |= {b[i:i + 8] for i in range(0, len(b), 8)}
    # a worker that died: the library took the whole process down; gate it by running that seed alone
    killed = 0
    for w, rc in died:
        try: s = int(open("%s/p%d" % (tmp, w)).read().split()[0])
        except Exception: s = None
        log = open("%s/l%d" % (tmp, w)).read()[-600:]
        if s is None: raise RuntimeError("worker %d ended with %s: %s" % (w, rc, log))
        res = []
        for k in range(2):
            try: r = subprocess.run(c + ["one"] + a + ["--prop", prop, "--seed", str(s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120); res.append(r.returncode)
            except subprocess.TimeoutExpired: res.append("timeout")
        if -9 in res or (rc == -9 and res[0] == res[1] == 0): killed += 1   # ended from outside, for its memory: not the library's doing
        elif res[0] == res[1] and res[0] not in (0, 1):
            viol.append({"format": "cake-sim-replay 1", "property": prop, "class": "process-killed", "message": "the library ends the simulating process itself (status %s) on plan %d: %s" % (res[0], s, log.strip()[-200:]), "kill_status": res[0], "plan_seed": s, "plan": json.loads(subprocess.check_output(c + ["show"] + a + ["--prop", prop, "--seed", str(s)], text=True))})
        elif res[0] == res[1] == 1: pass
        else: raise RuntimeError("worker %d ended with %s on seed %s, not reproducible (%s): %s" % (w, rc, s, res, log))
    bad = [v for v in viol if v.get("unstable")]; good = [v for v in viol if not v.get("unstable")]
    # an execution that differed inside the worker: what counts is what fresh processes do with its plan
    unconfirmed = 0
    for v in bad[:6]:
        r = [fresh_run(sim, lib, tmp, v["plan"]) for k in range(2)]
        if r[0] == r[1] and r[0][0] not in (None, "no violation"): good.append({"format": "cake-sim-replay 1", "property": prop, "class": r[0][0], "message": r[0][1], "found_by_seed": v["seed"], "trace_hash": r[0][2], "plan": v["plan"]})
        elif r[0] == r[1]: unconfirmed += 1
        else: raise RuntimeError("executions of one plan differ between fresh processes: %s" % json.dumps(dict(v, results=r))[:1500])
    bad = []
    fresh = []; findings = []
    for v in good:
        k = is_known(prop, v)
        if k: findings.append(k); continue
        fresh.append(v)
    secs = time.time() - t1; plans = int(agg.get("plans", 0)); execs = int(agg.get("execs", 0)); unsup = counts.get("outcome_unsupported", 0)
    faults = {k[6:]: v for k, v in counts.items() if k.startswith("fault_")}; 
    cov = {"evaluations": execs, "distinct_nontrivial": len(hist), "rule": "plans are generated from seed = VERIF_SEED*1000003 + i (calls, shapes, contexts, schedule policy, memory residue, team sizes, faults); one evaluation is one complete simulated execution of a plan; distinct executions are counted by the hash of the whole event trace (schedule, allocations, helper commands, results), those with identical hash counted once; trivial: fewer than six context switches, no fault, no memory residue, normal end", "samples": samples[:4] or ["(no sample)"],
           "plans": plans, "seeds": int(agg.get("seeds", 0)), "executions_per_hour": int(execs / max(secs, 1e-9) * 3600), "seeds_per_hour": int(agg.get("seeds", 0) / max(secs, 1e-9) * 3600), "simulated_seconds": round(agg.get("simsec", 0), 3), "scheduling_points": int(agg.get("steps", 0)), "context_switches": int(agg.get("switches", 0)),
           "distinct_interleavings": len(inter), "interleaving_measure": "hash of the sequence of (scheduling point, thread switched to) of an execution",
           "faults_fired": faults, "counts": counts, "determinism_rechecks": int(agg.get("rechecks", 0)), "determinism_mismatches": int(agg.get("recheck_mismatches", 0)), "unconfirmed_in_fresh_process": unconfirmed, "workers_out_of_memory": killed, "corpus_plans_replayed": int(agg.get("corpus", 0)), "components_real": [x.replace("except linear.cpp and autotune_sa.cpp", "except autotune_sa.cpp") for x in REAL] if prop == "C19" else REAL, "components_stub": STUB + (["libtorch and pybind11: stand-in headers sim/torch (tensors, module, interpreter lock)"] if prop == "C19" else []), "cpu_seconds": round(agg.get("cpu", 0), 1), "known_findings_seen": findings}
    # gate: every violation must reproduce in a fresh process
    reported = []
    for v in sorted(fresh, key=lambda v: len(json.dumps(v))):
        f = save_replay(prop, v); rc, out = (None, "")
        if v["class"] == "process-killed": reported.append((v, f)); break
        rc, out = replay_file(sim, lib, f)
        if rc == 1: reported.append((v, f)); break
        if rc in (0, 4):   # record what a fresh process does with it
            r = [fresh_run(sim, lib, tmp, v["plan"]) for k in range(2)]
            if r[0] == r[1] and r[0][0] not in (None, "no violation"): v = dict(v, **{"class": r[0][0], "message": r[0][1], "trace_hash": r[0][2]}); os.unlink(f); reported.append((v, save_replay(prop, v))); break
        bad.append(dict(v, replay_status=rc, replay_output=out[-500:]))
    write_evidence(prop, tier, seed, cov, t0, len(reported), ASSUME)
    for k in sorted(set(findings)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d plans, %d executions, %d distinct interleavings, %.1f s" % (prop, plans, execs, len(inter), secs))
    if reported:
        v, f = reported[0]; print("%s: %s" % (v["class"], v["message"])); print("VIOLATION property=%s replay=%s" % (prop, f), flush=True); return 1
    if bad: raise RuntimeError("a violation did not reproduce: %s" % json.dumps(bad[0])[:1500])
    if killed > 2: raise RuntimeError("%d workers ran out of memory" % killed)
    if plans < 20: raise RuntimeError("only %d plans were executed" % plans)
    if unsup * 2 > execs: raise RuntimeError("%d of %d executions need something the simulator does not provide" % (unsup, execs))
    mm, rc = agg.get("recheck_mismatches", 0) + unconfirmed, agg.get("rechecks", 0)
    if mm > max(3, rc // 10): raise RuntimeError("%d of %d executions were not repeatable" % (mm, rc))
    if mm: print("%s: note: %d executions left something behind in the simulating process that a second execution there could see; fresh processes agree" % (prop, mm))
    print("%s held on everything explored" % prop); return 0

def check_c15(prop, tier, seed, budget, sim, t0):
    v, st = vf_c15.search(sim, seed, tier, budget, WORKERS)
    st = dict(st); secs = st.pop("seconds"); n = st["evaluations"]
    cov = {"evaluations": n, "distinct_nontrivial": st.pop("distinct"), "rule": "an evaluation is one history of install runs in a scratch copy, ending in an undisturbed run, compared file by file with a clean install; first every single fault (kind x file operation of the install), then histories drawn from the seed; distinct by the whole history", "executions_per_hour": int(n / max(secs, 1e-9) * 3600), "components_real": ["install.sh, python/kernel_gen.py, python/grid_gen.py, bash, python3, mv, the file system"], "components_stub": ["lscpu, grep -c ^processor, nproc: stand-ins describing the simulated machine", "write/open/rename/... of the install's processes pass through an LD_PRELOAD shim that numbers and fails them"]}
    cov.update(st); findings = []
    rep = None
    if v and not v.get("unstable"):
        k = is_known(prop, v)
        if k: findings.append(k)
        else: rep = v
    write_evidence(prop, tier, seed, cov, t0, 1 if rep else 0, ["Files are compared by content; a kill loses buffered data of the killed processes but not data already handed to the kernel (process crash, not power loss).", "x86 branch of install.sh, without the network step (`blis`)."], "fault_enumeration")
    for k in sorted(set(findings)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("C15: %d histories, %d installs, %d of %d single faults, %.1f s" % (n, st["installs_run"], st["single_faults_enumerated"], st["single_faults_total"], secs))
    if rep:
        f = save_replay(prop, rep); r = subprocess.run([sys.executable, os.path.join(VERIF, "bin", "replay"), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 1: raise RuntimeError("violation did not reproduce: %s" % r.stdout[-800:])
        print("%s: %s" % (rep["class"], rep["message"])); print("VIOLATION property=C15 replay=%s" % f, flush=True); return 1
    if v and v.get("unstable"): raise RuntimeError("a violation did not reproduce: %s" % json.dumps(v)[:800])
    if n < 10 or st["single_faults_enumerated"] < 5: raise RuntimeError("only %d histories were run" % n)
    print("C15 held on everything explored"); return 0
