#!/usr/bin/env python3
"""Author-side helper: make and verify one planted bug.   mkseed.py SPEC.py
SPEC defines: id, prop, needs, what, edits=[(file, old, new)...], demo (python source using gsply).
Checks (in a scratch copy of /repo): patch applies, demo passes clean / fails patched, the test suite passes.
Nothing here is used by a check."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec, tests=True):
    s = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        cp = w + "/repo"
        shutil.copytree("/repo", cp, symlinks=True)
        env = dict(os.environ, PYTHONPATH=cp + "/src", PYTHONDONTWRITEBYTECODE="1")
        for f, old, new in s["edits"]:
            p = f"{cp}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print("EDIT MATCHES", t.count(old), "times:", f, repr(old[:80]))
                return 1
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "-C", cp, "diff"]).stdout
        # lines removed/changed must be original ones
        root = run(["git", "-C", cp, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
        d = f"{w}/seed"
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write("""#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export NUMBA_CACHE_DIR="$w/numba" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$w"
cd "$w" || exit 2
/opt/venv/bin/python "$d/demo.py"
""")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        r = run(["bash", d + "/demo.sh"], env=env, cwd=cp)
        if r.returncode == 0:
            print("DEMO DOES NOT FAIL with the patch", r.stdout[-2000:])
            return 1
        print("demo fails with patch:", r.stdout.strip().splitlines()[-1:] )
        r = run(["bash", d + "/demo.sh"], cwd="/repo")
        if r.returncode != 0:
            print("DEMO FAILS CLEAN", r.stdout[-2000:])
            return 1
        if tests:
            env2 = dict(env, PYTHONPATH=cp + "/src:/opt/vp", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=w + "/numba")
            r = run(["timeout", "840", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "seed_plugin", "--timeout=120",
                     "-m", "not benchmark", "--basetemp=" + w + "/pt", "tests"], cwd=cp, env=env2)
            last = r.stdout.strip().splitlines()[-3:]
            print("tests:", r.returncode, last[-1])
            if r.returncode != 0:
                print("\n".join(r.stdout.strip().splitlines()[-15:]))
                return 1
        out = f"{HERE}/seeded/{s['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(HERE + "/seeded", exist_ok=True)
        shutil.copytree(d, out)
        print("KEPT", out)
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


sys.exit(main(sys.argv[1], "--no-tests" not in sys.argv))
