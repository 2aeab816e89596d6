"""Collects the results of one property and decides."""
import json
import os
import sys
import time

from . import runner, scn

HERE = runner.HERE
CONC_TRIALS = {"quick": 1, "thorough": 4}


def run(pid, tier, seed, opt):
    t0 = time.time()
    total = 300 if tier == "quick" else 780
    deadline = t0 + total
    scs = runner.load_props(pid)
    import importlib
    mod = importlib.import_module("props." + pid.lower())
    insts = []
    for s in scs:
        if tier == "quick" and not s.quick:
            continue
        for p in s.instances(tier):
            if opt.only and opt.only not in scn.label(s.name, p):
                continue
            insts.append((s, p))
    nproc = opt.procs or max(2, min(8, os.cpu_count() or 4))
    sym_budget = 110 if tier == "quick" else 300
    tasks = []
    if not opt.no_sym:
        for s, p in sorted(insts, key=lambda x: -x[0].cost):
            if s.sym:
                tasks.append((("sym", s.name, json.dumps(p)), runner.run_sym, (pid, s.name, p, sym_budget), sym_budget + 60))
    cjobs = []
    if not opt.no_conc:
        k = CONC_TRIALS[tier]
        for s, p in insts:
            if s.conc:
                for t in range(s.trials * k):
                    cjobs.append((s.name, p, seed * 100003 + t, None))
    # concrete jobs are grouped by scenario so that each process compiles few kernels
    ncj = 2
    groups = [[] for _ in range(ncj)]
    names = sorted({j[0] for j in cjobs})
    for j in cjobs:
        groups[names.index(j[0]) % ncj].append(j)
    # interleave so a deadline still leaves coverage of every scenario
    for g in groups:
        g.sort(key=lambda j: j[2])
    import tempfile
    prog = tempfile.mkdtemp(prefix="vcprog_")
    tokens = {}

    def ctask(key, g, dl, limit):
        tokens[key] = (g, os.path.join(prog, str(len(tokens))))
        return (key, runner.conc_job, (pid, g, dl, tokens[key][1]), limit)
    ctasks = [ctask(("conc", k, ""), g, t0 + total * 0.7, total * 0.75) for k, g in enumerate(groups) if g]
    sym, conc, errs, died = {}, [], [], []

    def done(key, st, r):
        if key[0] == "sym":
            if st == "ok":
                sym[key] = r
            else:
                sym[key] = dict(label=key[1] + key[2], name=key[1], params=json.loads(key[2]), obligs=[], paths=0, normal=0,
                                unsupported=f"{st}: {str(r)[-1500:]}", error=None, entered=[], cex=[], stats={}, wall=0)
            if opt.v:
                show(sym[key])
        elif key[0] == "conc":
            if st == "ok":
                conc.extend(r)
            else:
                errs.append(f"concrete worker {key[1]}: {st}: {str(r)[-2000:]}")
                g, pf = tokens.get(key, ([], ""))
                if st == "err" and "worker died" in str(r) and os.path.exists(pf):
                    died.append((g, int(open(pf).read() or 0)))
    runner.Pool(nproc).run(ctasks + tasks, done, deadline)

    # a concrete run that kills its process is confirmed alone; the jobs after it are then run
    rounds = 0
    while died and rounds < 8 and time.time() < deadline:
        rounds += 1
        g, k = died.pop()
        n0 = len(died)
        runner.Pool(1).run([ctask(("conc", f"again{rounds}", ""), g[k:k + 1], deadline, 120)], done, deadline)
        if len(died) > n0:
            del died[n0:]
            name, params, sd, over = g[k]
            conc.append(dict(name=name, params=params, seed=sd, failures=[(f"{name}/no-crash", "the process was killed (memory fault)")], checked=0,
                             inputs=None, skipped=False, over=over, wall=0))
            g = [j for j in g[k + 1:] if j[0] != name]
        else:
            g = g[k + 1:]
        if g:
            runner.Pool(1).run([ctask(("conc", f"rest{rounds}", ""), g, min(deadline, time.time() + 120), 150)], done, deadline)

    # replay of counterexamples on the real package
    replays = []
    bad = []          # (scenario result, obligation record)
    for key, r in sym.items():
        for o in r["obligs"]:
            if o["bad"]:
                bad.append((r, o))
    if not opt.no_conc:
        seen = set()
        for r, o in bad:
            for nm, ov in r.get("cex", []):
                k = (r["label"], nm)
                if k in seen or len(seen) > 24:
                    continue
                seen.add(k)
                for t in range(3):
                    replays.append((r["name"], r["params"], seed * 7 + t, ov))
                replays.append((r["name"], r["params"], seed * 7 + 5, None))
        if replays and time.time() < deadline + 100:
            d2 = time.time() + 150
            runner.Pool(2).run([(("conc", "r", ""), runner.conc_job, (pid, replays, d2), 170)], done, d2 + 30)

    fails = [c for c in conc if c["failures"]]
    return decide(pid, tier, seed, sym, conc, fails, bad, errs, mod, t0, opt, insts)


def show(r):
    st = "UNSUPPORTED" if r["unsupported"] else ("ERROR" if r["error"] else "ok")
    nb = sum(len(o["bad"]) > 0 for o in r["obligs"])
    n = sum(o["n"] for o in r["obligs"])
    pr = sum(o["proved"] for o in r["obligs"])
    print(f"[{r['wall']:6.1f}s] {st:11s} {r['label']}: paths={r['paths']} normal={r['normal']} obligations={n} proved={pr} badnames={nb} {r.get('stats')}", flush=True)
    if r["unsupported"]:
        print("    ", r["unsupported"][:1500])
        print(r.get("trace", "")[-1800:])
    if r["error"]:
        print(r["error"])
    for o in r["obligs"]:
        for b in o["bad"][:1]:
            print("   BAD", o["name"], b["status"], b["goal"][:400], b["detail"][:1500])
    if nb:
        print("   cex", r["cex"][:2])


def known(pid):
    """findings listed for this property: (text, matcher)"""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith(f"finding: property={pid} "):
                rest = ln[len(f"finding: property={pid} "):]
                ident, _, text = rest.partition(" ")
                out.append((ident, text))
    return out


def decide(pid, tier, seed, sym, conc, fails, bad, errs, mod, t0, opt, insts):
    rdir = os.path.join(os.environ.get("VERIF_OUT", HERE), "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = known(pid)
    hit = set()

    def is_known(scname, params, ob):
        lab = f"{scn.label(scname, params)}::{ob}"
        for ident, text in kf:
            if ident == lab or ident == f"{scname}::{ob}":
                hit.add((ident, text))
                return True
        return False
    viol = []
    seen = set()
    for c in fails:
        for nm, det in c["failures"]:
            if is_known(c["name"], c["params"], nm):
                continue
            if nm in seen:
                continue
            seen.add(nm)
            viol.append(dict(property=pid, concrete=True, scenario=c["name"], params=c["params"], seed=c["seed"], overrides=c["over"],
                             obligation=nm, detail=str(det)[:3000], inputs=c["inputs"]))
    conc_names = {v["obligation"] for v in viol}
    for r, o in bad:
        if is_known(r["name"], r["params"], o["name"]):
            continue
        key = (r["name"], o["name"])
        if o["name"] in conc_names or key in seen:
            continue
        seen.add(key)
        viol.append(dict(property=pid, concrete=False, scenario=r["name"], params=r["params"], seed=seed, obligation=o["name"],
                         solver_output=o["bad"], cex=[x for x in r.get("cex", []) if x[0] == o["name"]][:1]))
    # obligation failures explained by a concrete failure of the same scenario are the same violation
    csc = {v["scenario"] for v in viol if v["concrete"]}
    final = [v for v in viol if v["concrete"]]
    rest = [v for v in viol if not v["concrete"]]
    if not final:
        final = rest
    else:
        for v in final[:1]:
            v["also_failed_obligations"] = [x["obligation"] for x in rest][:20]
    # vacuity / engine health
    unsupported = []
    for key, r in sym.items():
        if r["error"]:
            unsupported.append((r["label"], "engine error: " + r["error"][-600:]))
        elif r["unsupported"]:
            unsupported.append((r["label"], r["unsupported"][:400]))
        elif r["normal"] == 0 and not any(o["bad"] for o in r["obligs"]):
            unsupported.append((r["label"], "no feasible path reached the end of the scenario"))
    n_ob = sum(o["n"] for r in sym.values() for o in r["obligs"])
    n_pr = sum(o["proved"] for r in sym.values() for o in r["obligs"])
    kf_ob = n_ob - n_pr
    backends = {}
    for r in sym.values():
        for o in r["obligs"]:
            for k, v in o["backends"].items():
                backends[k] = backends.get(k, 0) + v
    entered = sorted({f for r in sym.values() for f in r["entered"]})
    mods = {}
    for r in sym.values():
        mods.update(r.get("modules", {}))
    nconc = sum(c["checked"] for c in conc)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  obligations=n_ob, discharged=n_pr,
                  obligation_names=sum(len(r["obligs"]) for r in sym.values()),
                  backends=backends,
                  solver_time_s=round(sum(o["t"] for r in sym.values() for o in r["obligs"]), 2),
                  feasibility_queries=int(sum(r.get("stats", {}).get("feas", 0) for r in sym.values())),
                  feasibility_time_s=round(sum(r.get("stats", {}).get("feas_s", 0) for r in sym.values()), 2),
                  paths=sum(r["paths"] for r in sym.values()),
                  scenarios=len(sym),
                  functions_under_contract=entered,
                  source_sha=mods,
                  checker_cmd=f"/opt/venv/bin/python check.py {pid} --tier {tier}",
                  trusted_base=TRUSTED,
                  bounded=[f"{a}: {b}" for a, b in unsupported][:60],
                  bounded_runs=dict(runs=len(conc), claims=nconc, skipped=sum(1 for c in conc if c["skipped"]),
                                    note="concrete runs of the same contracts against the installed package; never counted as proved"),
                  scenario_results=[dict(label=r["label"], paths=r["paths"], obligations=sum(o["n"] for o in r["obligs"]),
                                         proved=sum(o["proved"] for o in r["obligs"]), wall_s=round(r["wall"], 1)) for r in sym.values()]),
              assumptions=ASSUME + list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 1), violations=len(final))
    edir = os.path.join(os.environ.get("VERIF_OUT", HERE), "evidence")
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    for e in errs:
        print("WARNING", e)
    for a, b in unsupported:
        print(f"BOUNDED {a}: not within the verifier's reach ({b.splitlines()[0][:200]}); concrete stand-in only")
    for ident, text in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {text}")
    print(f"{pid}: {n_pr}/{n_ob} obligations discharged in {len(sym)} contract scenarios, {len(unsupported)} bounded, "
          f"{len(conc)} concrete runs ({nconc} claims), {round(time.time() - t0, 1)}s")
    if final:
        for k, v in enumerate(final[:5]):
            path = os.path.join(rdir, f"{pid}-{k}.json")
            json.dump(v, open(path, "w"), indent=1, default=str)
            tail = "" if v["concrete"] else " no-failing-input-found"
            print(f"  failed obligation {v['obligation']} in {scn.label(v['scenario'], v['params'])} {str(v.get('detail', ''))[:300]}")
            print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    # a run that decided nothing is not a pass
    if not opt.only and not opt.no_sym and not opt.no_conc and n_pr == 0 and nconc == 0:
        print(f"{pid}: nothing was checked")
        return 2
    if errs and not conc and not opt.no_conc and any(s.conc for s, _ in insts):
        # the package could not be exercised at all
        if n_pr == 0:
            return 2
    return 0


TRUSTED = [
    "vc/ (this verifier: loader transformation, symbolic array semantics, loop rules)",
    "z3 and cvc5",
    "CPython executing the extracted source",
    "models of numpy/torch/numba/pathlib/zipfile/json used by the code (vc/fakenp.py, faketorch.py, fakeio.py)",
]
ASSUME = [
    "machine floating point is treated as real arithmetic (no rounding, NaN, infinity, overflow); float32<->float64 conversion is the identity",
    "64-bit machine integers are treated as mathematical integers; 8/16/32-bit casts are exact (wrap-around) or generate range obligations",
    "numba compiles the kernels according to Python semantics (fastmath and the compiler itself are trusted); prange iterations run exactly once each",
    "file-system calls succeed and files are not modified concurrently",
]
