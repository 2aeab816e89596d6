#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only SUBSTR] [--no-conc] [--no-sym] [-v]
check.py replay <file>"""
import argparse
import hashlib
import json
import os
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "4")


def setup():
    """nothing to build: check that the tools are there"""
    import numpy, z3  # noqa
    import cvc5  # noqa
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    print("ok", z3.get_version_string(), sys.version.split()[0])
    return 0


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        import vc.core  # noqa  (puts the solver bindings on the path)
        return setup()
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--no-conc", action="store_true")
    ap.add_argument("--no-sym", action="store_true")
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="vcrun_")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        from vc import verdict
        return verdict.run(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    print(json.dumps({k: v for k, v in d.items() if k not in ("solver_output",)}, indent=1)[:4000])
    if not d.get("concrete"):
        print("no concrete input recorded; solver output:")
        print(d.get("solver_output"))
        return 1
    from vc import runner
    f, c, inp, sk = runner.run_conc(d["property"], d["scenario"], d["params"], d["seed"], d.get("overrides"))
    print("claims evaluated:", c)
    for x in f:
        print("FAILED", x)
    return 1 if f else 0


if __name__ == "__main__":
    sys.exit(main())
