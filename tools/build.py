#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree, into /verif/build (ignored by git).

Objects are cached under a key of their source, all headers and the flags, so a changed tree is always rebuilt.
  variants: simrun       instrumented (every memory access is a scheduling point and a step of logical time)
            simrun-zero  the same with automatic variables initialised to zero
            simrun-patt  the same with automatic variables initialised to a pattern
"""
import hashlib, os, subprocess, sys, glob, fcntl, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
DEFS = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
INC = ["-I" + REPO, "-I" + REPO + "/ThermoFun", "-I" + VERIF + "/sim", "-I" + VERIF + "/sim/chemicalfun"]
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fno-pie"] + DEFS + INC
TSAN = ["-fsanitize=thread"]
VAR = {"": [], "-zero": ["-ftrivial-auto-var-init=zero"], "-patt": ["-ftrivial-auto-var-init=pattern"]}

def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]
def read(f):
    with open(f, "rb") as x: return x.read()
def headers():
    fs = []
    for root in (REPO + "/ThermoFun", VERIF + "/sim"):
        for d, _, names in os.walk(root):
            fs += [os.path.join(d, n) for n in names if n.endswith((".h", ".hpp", ".hxx", ".tpp", ".inl"))]
    return h(*[x for f in sorted(fs) for x in (f, read(f))])
def repo_headers():
    fs = []
    for d, _, names in os.walk(REPO + "/ThermoFun"):
        fs += [os.path.join(d, n) for n in names if n.endswith((".h", ".hpp", ".hxx", ".tpp", ".inl"))]
    return h(*[x for f in sorted(fs) for x in (f, read(f))])
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build(variants=("",), jobs=None, quiet=False):
    """returns (directory with the executables, key)"""
    t0 = time.time()
    os.makedirs(OUT + "/obj", exist_ok=True)
    lock = open(OUT + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    hall, hrepo = headers(), repo_headers()
    repo_src = sorted(glob.glob(REPO + "/ThermoFun/**/*.cpp", recursive=True))
    sim_src = sorted(glob.glob(VERIF + "/sim/*.cpp") + glob.glob(VERIF + "/sim/chemicalfun/*.cpp"))
    todo, objs = [], {v: [] for v in variants}
    def want(src, flags, hk, tag):
        cmd = [CXX] + BASE + flags
        key = h(src, read(src), hk, " ".join(cmd)); o = f"{OUT}/obj/{key}.o"
        if not os.path.exists(o): todo.append((os.path.getsize(src), cmd + ["-c", src, "-o", o + ".tmp"], o))
        return o
    for v in variants:
        for s in repo_src: objs[v].append(want(s, TSAN + VAR[v], hrepo, v))
    sim = [want(s, [], hall, "sim") for s in sim_src]
    todo = list({t[2]: t for t in todo}.values()); todo.sort(reverse=True, key=lambda t: (("/sim/world" in t[1][-3]) * 10 + ("/sim/" in t[1][-3]), t[0]))
    def one(t):
        rc, out = run(t[1])
        if rc == 0: os.rename(t[2] + ".tmp", t[2])
        return rc, out, t[1]
    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        bad = [r for r in ex.map(one, todo) if r[0]]
    if bad:
        for rc, out, cmd in bad[:3]: sys.stderr.write(" ".join(cmd) + "\n" + out[-3000:] + "\n")
        raise SystemExit("the simulator does not build against the working tree")
    key = h(*sorted(o for v in objs.values() for o in v), *sim); d = f"{OUT}/bin-{h(*[o for o in sorted(sim)], *[o for o in sorted(objs[variants[0]])])}"
    os.makedirs(d, exist_ok=True)
    def link(v):
        exe = f"{d}/simrun{v}"
        if os.path.exists(exe): return 0, "", []
        cmd = [CXX, "-no-pie", "-o", exe + ".tmp"] + objs[v] + sim + ["-rdynamic", "-lspdlog", "-lfmt", "-lpthread", "-ldl"]
        rc, out = run(cmd)
        if rc == 0: os.rename(exe + ".tmp", exe)
        return rc, out, cmd
    with ThreadPoolExecutor(4) as ex:
        for rc, out, cmd in ex.map(link, variants):
            if rc: sys.stderr.write(out[-3000:] + "\n"); raise SystemExit("the simulator does not link against the working tree")
    # keep the cache small: drop what has not been used for a while
    used = set(sim) | {o for v in objs.values() for o in v}
    for o in used: os.utime(o)
    old = sorted(glob.glob(OUT + "/obj/*.o"), key=os.path.getmtime)
    for o in old[:-1200]:
        if o not in used: os.unlink(o)
    for b in sorted(glob.glob(OUT + "/bin-*"), key=os.path.getmtime)[:-6]:
        if b != d:
            for f in glob.glob(b + "/*"): os.unlink(f)
            os.rmdir(b)
    os.utime(d)
    if not quiet: sys.stderr.write(f"built {len(todo)} objects in {time.time() - t0:.1f} s -> {d}\n")
    return d
if __name__ == "__main__":
    vs = tuple(VAR) if "all" in sys.argv[1:] else ("",)
    print(build(vs))
