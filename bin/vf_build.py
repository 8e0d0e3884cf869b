"""Builds the library variants and the simulator from /repo's current working tree."""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
PARTS = ["src", "include", "python", "install.sh", "env.sh", "Makefile", "kernels.mk"]
BASE = "-mavx -mfma -mtune=haswell -fPIC -fopenmp -D_POSIX_C_SOURCE=200112L -DUSE_CAKE_HASWELL -DUSE_CAKE_PACK -w".split()
FINE = "-O1 -g -fsanitize=thread -fno-builtin-memset -fno-builtin-memcpy -fno-builtin-memmove -fno-tree-loop-distribute-patterns -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector".split()
COARSE = "-O2 -g -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fno-builtin-malloc -fno-builtin-memset -fno-builtin-memcpy".split()
VARIANTS = {"fine0": FINE + ["-ftrivial-auto-var-init=zero"], "fine1": FINE + ["-ftrivial-auto-var-init=pattern"], "coarse": COARSE}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
    return r.stdout

def files(root):
    out = []
    for p in PARTS:
        f = os.path.join(root, p)
        if os.path.isfile(f): out.append(f)
        for d, ds, fs in os.walk(f):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            out += [os.path.join(d, x) for x in sorted(fs)]
    return out

def digest(paths, root):
    h = hashlib.sha256()
    for f in paths:
        h.update(os.path.relpath(f, root).encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\1")
    return h.hexdigest()[:20]

def numbers(tree):
    """Integer constants of the sources: sizes at which the code may behave differently (see gen.cpp)."""
    out = set()
    for d in ("src", "include"):
        for f in sorted(os.listdir(os.path.join(tree, d))):
            if not f.endswith((".cpp", ".h", ".c", ".hpp", ".inc")) or f == "bli_x86_asm_macros.h": continue
            t = open(os.path.join(tree, d, f), errors="replace").read()
            t = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\\\.|[^\"\\\n])*\"", " ", t, flags=re.S)
            n = r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])"
            val = lambda s: int(s, 16) if s[:2].lower() == "0x" else int(s)
            out |= {val(m) for m in re.findall(n, t)} | {val(a) * val(b) for a, b in re.findall(n + r"\s*\*\s*" + n, t)}
            out |= {val(a) << val(b) for a, b in re.findall(n + r"\s*<<\s*" + n, t) if val(b) < 40}
            out |= {int(float(m)) for m in re.findall(r"(?<![\w.])(\d+\.?\d*[eE]\d)[fF]?(?![\w.])", t)}
    return sorted(x for x in out if 5 <= x < 1 << 31)

def copy_tree(dst):
    os.makedirs(dst)
    for p in PARTS:
        s = os.path.join(REPO, p)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(dst, p), ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(s): shutil.copy2(s, dst)

def wraps():
    t = open(os.path.join(SIM, "core.cpp")).read() + open(os.path.join(SIM, "gomp.cpp")).read() + open(os.path.join(SIM, "glue.cpp")).read()
    return sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", t)))

def std_env(standins, **kw):
    e = {"PATH": standins + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}
    e.update(kw); return e

def build_sim():
    """the simulator binary and the stand-ins; depends on /verif/sim only"""
    src = sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".cpp", ".h", ".c"))) + sorted(os.path.join(SIM, "standins", f) for f in os.listdir(os.path.join(SIM, "standins")))
    d = os.path.join(BUILD, "sim-" + digest(src, SIM)); ok = os.path.join(d, "ok")
    if os.path.exists(ok): return d
    tmp = d + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/standins")
    jobs = []
    for f in sorted(os.listdir(os.path.join(SIM, "standins"))):
        if f.endswith(".c"): jobs.append(["gcc", "-O1", "-w", os.path.join(SIM, "standins", f), "-o", tmp + "/standins/" + f[:-2]])
    objs = []
    for f in ["util", "core", "gomp", "work", "gen", "main"]:
        o = tmp + "/%s.o" % f; objs.append(o)
        jobs.append("g++ -std=c++17 -O2 -g -fno-omit-frame-pointer -Wall -Wno-misleading-indentation -Wno-parentheses -Wno-unused-function -U_FORTIFY_SOURCE".split() + ["-c", os.path.join(SIM, f + ".cpp"), "-o", o])
    jobs.append(["gcc", "-O1", "-fPIC", "-shared", "-w", os.path.join(SIM, "shim.c"), "-o", tmp + "/shim.so", "-ldl"])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    sh(["g++", "-rdynamic", "-o", tmp + "/sim"] + objs + ["-ldl", "-lm"])
    for o in objs: os.remove(o)
    open(tmp + "/ok", "w").close()
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def prune(keep):
    """keep the build folder small"""
    now = time.time()
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(("lib-", "sim-"))]
    ds.sort(key=lambda p: -os.path.getmtime(p))
    for p in ds[12:]:
        if p not in keep and now - os.path.getmtime(p) > 1800: shutil.rmtree(p, ignore_errors=True)

def build_lib(simdir):
    fs = files(REPO)
    glue = [os.path.join(SIM, f) for f in ("glue.cpp", "glue_torch.cpp", "torch/torch/torch.h", "force.h", "core.cpp", "gomp.cpp")] + [os.path.join(VERIF, "bin/vf_build.py")]
    key = hashlib.sha256((digest(fs, REPO) + digest(glue, VERIF)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "lib-" + key)
    if os.path.exists(d + "/ok"): os.utime(d); return d
    tmp = d + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); tree = tmp + "/tree"; os.makedirs(tmp); copy_tree(tree)
    open(tmp + "/numbers", "w").write(" ".join(map(str, numbers(tree))))
    env = std_env(simdir + "/standins", CAKE_HOME=tree, BLIS_INSTALL_PATH=tree)
    sh(["bash", "-e", "./install.sh"], cwd=tree, env=env)
    S = tree + "/src"
    srcs = sorted(os.path.join(S, f) for f in os.listdir(S) if f.endswith(".cpp") and f not in ("linear.cpp", "autotune_sa.cpp"))
    srcs += [S + "/kernels/haswell/blis_pack_haswell.cpp", S + "/kernels/haswell/dense.cpp", S + "/kernels/haswell/transpose_haswell.cpp"]
    jobs, objs = [], {}
    for v, fl in VARIANTS.items():
        objs[v] = []
        for s in srcs:
            o = "%s/%s-%s.o" % (tmp, v, os.path.basename(s)[:-4]); objs[v].append(o)
            inc = ["-include", SIM + "/force.h"] if v.startswith("fine") else []
            jobs.append(["g++"] + BASE + fl + inc + ["-I" + tree + "/include", "-c", s, "-o", o])
        o = "%s/%s-glue.o" % (tmp, v); objs[v].append(o)
        jobs.append(["g++"] + BASE + ["-O1", "-g", "-I" + tree + "/include", "-c", SIM + "/glue.cpp", "-o", o])
    # the dense-layer binding, over the stand-in headers; a tree where it does not compile has no binding to check
    lin = {v: [] for v in VARIANTS}
    def linear(v):
        for s in (S + "/linear.cpp", SIM + "/glue_torch.cpp"):
            o = "%s/%s-%s.o" % (tmp, v, os.path.basename(s)[:-4])
            sh(["g++"] + BASE + VARIANTS[v] + ["-I" + SIM + "/torch", "-I" + tree + "/include", "-c", s, "-o", o]); lin[v].append(o)
    def linears(v):
        try: linear(v)
        except (RuntimeError, OSError) as e: lin[v] = []; open(tmp + "/linear.err", "a").write(str(e) + "\n")
    with ThreadPoolExecutor(8) as ex: fl = [ex.submit(linears, v) for v in VARIANTS]; list(ex.map(sh, jobs)); [f.result() for f in fl]
    for v in VARIANTS: objs[v] += lin[v] if not os.path.exists(tmp + "/linear.err") else []
    w = ["-Wl,--wrap=" + x for x in wraps()]
    def link(v): sh(["g++", "-shared", "-o", "%s/%s.so" % (tmp, v)] + objs[v] + ["-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,relro"] + w)
    with ThreadPoolExecutor(3) as ex: list(ex.map(link, VARIANTS))
    for v in objs:
        for o in objs[v]: os.remove(o)
    open(tmp + "/ok", "w").close()
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def build_sim_locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX); return build_sim()

def build_all():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        s = build_sim(); l = build_lib(s); prune({s, l})
    return s, l

if __name__ == "__main__":
    t = time.time(); print(*build_all()); print("%.1f s" % (time.time() - t))
