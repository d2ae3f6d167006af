#!/usr/bin/env python3
"""Runs the same seeds with different worker layouts in separate processes and compares everything."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools"); import build as B, plans
n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
exe = B.build(tuple(B.VAR), quiet=True) + "/simrun"; bad = 0
for prop in sys.argv[2:] or sorted(plans.PROPS):
    sets = []
    for layout, workers in enumerate((1, 3, 7)):
        out = f"{V}/build/det-{os.getpid()}"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        env = dict(os.environ, SIMDATA=V + "/data/base.json"); 
        if layout == 2: env["SIM_ASLR"] = "1"
        ps = [subprocess.Popen([exe, "worker", prop, str(5550000 + w), str(workers), str((n - w + workers - 1) // workers), "600", "0", out], env=env, stdout=subprocess.DEVNULL) for w in range(workers)]
        for p in ps: p.wait()
        sets.append({l for f in glob.glob(out + "/hashes-*") for l in open(f) if l[0] in "tse"}); shutil.rmtree(out)
    same = sets[0] == sets[1] == sets[2]; bad += not same; print(prop, "identical" if same else "DIFFERENT %d %d" % (len(sets[0] ^ sets[1]), len(sets[0] ^ sets[2])), len(sets[0]), flush=True)
sys.exit(bad != 0)
