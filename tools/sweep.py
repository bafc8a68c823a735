#!/usr/bin/env python3
"""sweep.py FROM TO PROP... : runs checks' cases for many seeds with a copy of the
current executables and reports failing cases (development aid)."""
import os, shutil, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp  # noqa: E402

a, b, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] or list(vp.PLAN)
d = tempfile.mkdtemp(prefix="sweep-")
if os.environ.get("SWEEP_JOBS"):
    vp.JOBS = int(os.environ["SWEEP_JOBS"])
exes = {}
for p in props:
    for fl, _, _ in vp.PLAN[p]:
        if fl not in exes:
            exes[fl] = shutil.copy(vp.locked_build([fl])[fl], d + "/" + fl)
for seed in range(a, b + 1):
    for p in props:
        for fl, q, th in vp.PLAN[p]:
            t = time.time()
            for r in vp.run_workers(exes[fl], p, seed, q, "quick", d):
                if r["fail_idx"] >= 0:
                    f = "/tmp/up/fail-%s-%s-%d-%d.case" % (p, fl, seed, r["fail_idx"])
                    open(f, "w").write(r["case"] + "\n# flavour %s\n" % fl)
                    print("FAIL", f, r["why"][:300].replace("\n", " | "), flush=True)
            print(seed, p, fl, "%.1f" % (time.time() - t), flush=True)
shutil.rmtree(d)
