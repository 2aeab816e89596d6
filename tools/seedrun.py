#!/usr/bin/env python3
"""Author-side helper: run the check of each planted bug's property against it (in a scratch copy, VERIF_REPO).
seedrun.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    d = f"{HERE}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="srun_")
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    a = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--tier", "quick"], cwd=HERE, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_OUT=w))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    kind = "MISSED" if not v else ("proof-only" if all("no-failing-input" in l for l in v) else "CAUGHT")
    print(f"{i:14s} {prop} rc={r.returncode} {kind:10s} {len(v)} lines {time.time()-t:.0f}s  {v[0][:150] if v else ''}", flush=True)
    shutil.rmtree(w, ignore_errors=True)
