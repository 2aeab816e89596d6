"""Runs the scenarios of a property: symbolically (deciding), and concretely (replay, bounded stand-in)."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import scn

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_props(pid):
    import importlib
    importlib.import_module("props." + pid.lower())
    return scn.REG.get(pid, [])


# ------------------------------------------------------------------ symbolic worker
GAP = (TypeError, AttributeError, NameError, NotImplementedError, RecursionError)


def run_sym(pid, name, params, budget):
    """One scenario instance, all paths.  Returns a picklable result."""
    from . import core, fakeio, loops, loader
    from .core import CTX
    from .world import make_world
    from .env import SymEnv
    s = next(x for x in load_props(pid) if x.name == name)
    t0 = time.time()
    res = dict(label=scn.label(name, params), name=name, params=params, obligs=[], paths=0, normal=0, unsupported=None, error=None,
               entered=[], crashed=[], kernels=[])
    CTX.reset_all()
    CTX.deadline = t0 + budget
    CTX.check_bounds = True
    CTX.check_casts = True
    CTX.parallel_strict = True
    normal = [0]
    cex = []
    entered = set()

    def body():
        CTX.counter = 0
        CTX.loop_vars.clear()
        CTX.kernel.clear()
        CTX.write_log = CTX.read_log = CTX.load_log = None
        CTX.undo = None
        CTX.no_fork = 0
        CTX.field_w = {}
        CTX.nonneg.clear()
        core.CTX_BOUNDS.clear()
        core.STR_TAB.clear()
        core.BLOB_TAB.clear()
        CTX.fs = fakeio.FakeFS()
        world = make_world(stubs=s.stubs, with_torch=s.torch, extra=s.extra() if s.extra else None)
        e = root[0] = SymEnv(world, CTX.fs)
        e.scenario = name
        try:
            s.fn(e, **params)
            normal[0] += 1
        except core.PathEnd:
            raise
        except (core.Unsupported, core.NeedSequential, core.EngineLimit):
            raise
        except core.NonTermination as ex:
            o = core.Oblig(f"{name}/terminates")
            o.status, o.backend, o.time, o.detail, o.goal = "refuted", "path", 0, str(ex), False
            CTX.obligs.append(o)
            on_prove(o)
        except GAP as ex:
            tb = traceback.format_exc()
            raise core.Unsupported(f"engine gap: {type(ex).__name__}: {ex}\n{tb[-1500:]}")
        except Exception as ex:
            o = core.Oblig(f"{name}/no-exception:{type(ex).__name__}")
            o.status, o.backend, o.time = "refuted", "path", 0
            o.detail = f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-2500:]
            p = CTX.path
            r = p.solver.check()
            import z3
            if r == z3.unsat:
                raise core.PathEnd("infeasible")
            # use the quantified facts as well
            st, model, _ = core.check_valid(z3.BoolVal(False), timeout=4.0)
            if st == "proved":
                raise core.PathEnd("infeasible")
            o.model = model
            CTX.obligs.append(o)
            on_prove(o)

    def on_prove(o):
        if o.status != "proved" and len(cex) < 12:
            env = root[0]
            cex.append((o.name, extract(o.model, env) if o.model is not None else None))

    root = [None]
    CTX.on_prove = on_prove
    try:
        n = core.explore(body, lambda p, r: None)
        res["paths"] = n
    except core.Unsupported as ex:
        res["unsupported"] = f"{type(ex).__name__}: {ex}"
        res["trace"] = traceback.format_exc()[-2500:]
    except core.NeedSequential as ex:
        res["unsupported"] = f"NeedSequential: {ex}"
        res["trace"] = traceback.format_exc()[-2500:]
    except Exception as ex:
        res["error"] = traceback.format_exc()[-3000:]
    res["normal"] = normal[0]
    res["entered"] = sorted(CTX.entered)
    res["kernels"] = sorted({k for i in loader.INFO.values() for k in i["kernels"]})
    res["cex"] = cex
    res["stats"] = {k: round(v, 3) for k, v in CTX.stats.items()}
    res["wall"] = time.time() - t0
    ob = {}
    for o in CTX.obligs:
        r = ob.setdefault(o.name, dict(name=o.name, n=0, proved=0, bad=[], backends={}, t=0.0))
        r["n"] += 1
        r["t"] += o.time or 0
        r["backends"][o.backend] = r["backends"].get(o.backend, 0) + 1
        if o.status == "proved":
            r["proved"] += 1
        elif len(r["bad"]) < 3:
            g = ""
            try:
                g = str(o.goal)[:1500]
            except Exception:
                pass
            r["bad"].append(dict(status=o.status, goal=g, detail=o.detail, model=str(o.model)[:3000] if o.model is not None else None))
    res["obligs"] = list(ob.values())
    for k, v in loader.INFO.items():
        res.setdefault("modules", {})[k] = v["sha"]
    return res


def extract(model, env):
    """solver model -> concrete overrides"""
    import z3
    if env is None:
        return None
    out = {}

    def val(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None
    for name, d in env.decls.items():
        try:
            if d[0] in ("int", "real", "bool"):
                out[name] = val(model.eval(d[1], model_completion=True))
            elif d[0] == "pick":
                out[name] = d[1]
            elif d[0] == "array":
                f = d[1]
                fi = model[f] if isinstance(f, z3.FuncDeclRef) else None
                ent = []
                if fi is not None and isinstance(fi, z3.FuncInterp):
                    for k in range(min(fi.num_entries(), 400)):
                        e = fi.entry(k)
                        idx = [val(e.arg_value(j)) for j in range(e.num_args())]
                        v = val(e.value())
                        if v is not None and all(i is not None for i in idx):
                            ent.append([idx, v])
                    ev = val(fi.else_value()) if fi.else_value() is not None else None
                if ent:
                    out["array:" + name] = ent
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ concrete worker
def conc_setup():
    os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    if src not in sys.path:
        sys.path.insert(0, src)


class Hang(BaseException):
    pass


def run_conc(pid, name, params, seed, overrides=None):
    """-> (failures, checked, inputs summary, skipped)"""
    conc_setup()
    from .env import ConcEnv, ScenarioSkip
    s = next(x for x in load_props(pid) if x.name == name)
    hook = getattr(sys.modules.get("props." + pid.lower()), "conc_setup", None)
    if hook:
        hook()
    e = ConcEnv(seed, overrides, dims=s.dims)
    e.scenario = name
    skipped = False

    def alarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(s.alarm)
    try:
        s.fn(e, **params)
    except ScenarioSkip:
        skipped = True
    except Hang:
        e.failures.append((f"{name}/terminates", f"still running after {s.alarm} s"))
    except Exception as ex:
        e.failures.append((f"{name}/no-exception:{type(ex).__name__}", f"{ex} :: {traceback.format_exc()[-1200:]}"))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        e.close()
    inp = {}
    for k, v in e.inputs.items():
        if hasattr(v, "shape"):
            inp[k] = {"shape": list(v.shape), "dtype": str(v.dtype), "head": [x.item() if hasattr(x, "item") else x for x in v.reshape(-1)[:12]]}
        else:
            inp[k] = v
    return e.failures[:6], e.checked, inp, skipped


def conc_job(pid, jobs, deadline, progress=None):
    out = []
    for k, (name, params, seed, over) in enumerate(jobs):
        if time.time() > deadline:
            break
        t0 = time.time()
        if progress:
            # should the process die, the parent learns on which job
            with open(progress, "w") as f:
                f.write(str(k))
        f, c, inp, sk = run_conc(pid, name, params, seed, over)
        out.append(dict(name=name, params=params, seed=seed, failures=f, checked=c, inputs=inp if f else None, skipped=sk, over=over,
                        wall=time.time() - t0))
    return out


def _child(fn, args, conn):
    try:
        r = fn(*args)
        conn.send(("ok", r))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    conn.close()


class Pool:
    """one process per task (memory and state isolation), bounded parallelism"""

    def __init__(self, n):
        self.n = n
        self.ctx = mp.get_context("fork")

    def run(self, tasks, on_done, deadline):
        """tasks: [(key, fn, args, limit)]"""
        import multiprocessing.connection as mpc
        pending = list(tasks)
        live = {}
        while pending or live:
            while pending and len(live) < self.n:
                key, fn, args, limit = pending.pop(0)
                if time.time() > deadline:
                    on_done(key, "skip", "time budget")
                    continue
                a, b = self.ctx.Pipe(duplex=False)
                p = self.ctx.Process(target=_child, args=(fn, args, b))
                p.start()
                b.close()
                live[a] = (key, p, time.time() + limit)
            if not live:
                break
            ready = mpc.wait(list(live), timeout=0.5)
            for c in ready:
                key, p, dl = live.pop(c)
                try:
                    st, r = c.recv()
                except EOFError:
                    st, r = "err", "worker died"
                p.join()
                on_done(key, st, r)
            now = time.time()
            for c in list(live):
                key, p, dl = live[c]
                if now > dl or now > deadline + 15:
                    p.kill()
                    p.join()
                    live.pop(c)
                    on_done(key, "timeout", "killed after time limit")
