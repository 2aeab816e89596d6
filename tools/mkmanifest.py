#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check (props/cNN.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
COMMON = ("Every obligation generated from /repo's current source by executing the real functions symbolically on arbitrary inputs "
          "(any N, any element values) is discharged by z3/cvc5; loops by an inductive/parallel-map rule, no unrolling bound on data. "
          "Assumes floats are reals, 64-bit ints unbounded, numba/numpy/torch behave as modelled; the same contracts also run on the real "
          "package (bounded, not counted as proved).")
NOTE = {
    "C08": " Also assumes prange iterations run once each; memory accesses inside numpy/torch/imagecodecs are trusted.",
    "C20": " imagecodecs WebP decoding, zipfile and json are modelled (any texture content).",
}
NA = {
    "C23": "needs a CUDA device and the torch graph compiler: neither exists in this sandbox and no deductive verifier here models CUDA execution or TorchInductor output; the CPU eager path is covered by C17-C19.",
}
WIP = set()
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if i in WIP or not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
        "technique": "contract-based deductive verification (symbolic execution of the real source, verification conditions discharged by z3/cvc5)",
        "level": "proof",
        "level_note": COMMON + NOTE.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks were added to /repo; the fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
