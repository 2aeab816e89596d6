"""C08  Compiled kernels are memory-safe and schedule-independent.

Symbolic side: every kernel reached below generates bounds:, race: and range: obligations for arbitrary extents and contents.
Concrete side: the kernels run as Python with the parallel loops in shuffled order and out-of-range or negative indices refused."""
import os
import random

from vc.scn import scenario
from . import codec
from .common import fmt, mk_gs, raw_fields
from .sog import KINDS, KS as SKS, Bundle

KS = (0, 3, 8, 15)
GOOD = {"means": 3, "scales": 3, "quats": 4, "opacities": 0, "sh0": 3}


# ---------------------------------------------------------------- concrete instrumentation
class Order:
    rng = None


def conc_setup():
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import functools
    import numba
    import numpy as np
    if getattr(numba, "_checked", False):
        return

    def prange(*a):
        r = list(range(*(int(x) for x in a)))
        if Order.rng is not None:
            Order.rng.shuffle(r)
        return r

    class Checked(np.ndarray):
        def _ck(self, key):
            for k, n in zip(key if isinstance(key, tuple) else (key,), self.shape):
                if isinstance(k, (int, np.integer)) and k < 0:
                    raise IndexError(f"negative index {k} into an axis of {n}")

        def __getitem__(self, key):
            self._ck(key)
            v = np.ndarray.__getitem__(self, key)
            return int(v) if isinstance(v, np.integer) else v

        def __setitem__(self, key, v):
            self._ck(key)
            np.ndarray.__setitem__(self, key, v)

    def jit(*a, **k):
        def deco(f):
            @functools.wraps(f)
            def run(*args):
                out = f(*(x.view(Checked) if isinstance(x, np.ndarray) and type(x) is np.ndarray else x for x in args))
                plain = (lambda v: v.view(np.ndarray) if isinstance(v, Checked) else v)
                return tuple(plain(v) for v in out) if isinstance(out, tuple) else plain(out)
            return run
        return deco(a[0]) if a and callable(a[0]) else deco
    numba.prange, numba.jit, numba.njit, numba._checked = prange, jit, jit, True


def run(e, fn, name, reset=None):
    """fn in two schedules gives the same outcome; a kernel never leaves its arrays"""
    if e.sym:
        r, ex = e.attempt(fn)
        return r, ex
    import numpy as np
    outs = []
    for k in range(2):
        Order.rng = None if k == 0 else random.Random(e.rng.random())
        if reset and k:
            reset()
        r, ex = e.attempt(fn)
        if isinstance(ex, IndexError):
            import traceback
            tb = ex.__traceback__
            last = traceback.extract_tb(tb)[-1] if tb else None
            inside = last is not None and (last.name.endswith("_jit") or "numba" in last.name or last.name in ("_ck", "__getitem__", "__setitem__")
                                           or "_impl" in last.name or "jit" in last.name)
            e.prove(not inside, f"bounds:{name}: {ex}")
        outs.append((r, type(ex)))
    Order.rng = None

    def parts(r):
        if r is None or isinstance(r, (bytes, int, float, str)):
            return [r]
        if isinstance(r, np.ndarray):
            return [r.tobytes(), r.shape]
        if isinstance(r, (tuple, list)):
            return [p for x in r for p in parts(x)]
        return [p for n in ("means", "scales", "quats", "opacities", "sh0", "shN", "masks") for p in parts(getattr(r, n, None))]
    e.prove(outs[0][1] is outs[1][1] and parts(outs[0][0]) == parts(outs[1][0]), f"schedule:{name}")
    return r, ex


def held(e, *arrays):
    """put the arrays back before the second schedule"""
    if e.sym:
        return None
    keep = [(a, a.copy()) for a in arrays if a is not None]

    def reset():
        for a, c in keep:
            a[...] = c
    return reset


# ---------------------------------------------------------------- containers and raw arrays of any extents
def fields(e, bad, K, layout="c"):
    """attribute arrays with the right shapes except one: another number of rows, other columns, or another rank"""
    N = e.dim("N")
    d = raw_fields(e, N, K, layout, ranges=dict(scales=(-9, 9), opacities=(-9, 9)))
    if bad:
        name, how = bad
        if how == "rows":
            M = e.dim("M")
            shp = (M,) + ((GOOD[name],) if name != "shN" and GOOD[name] else ()) + ((K, 3) if name == "shN" else ())
        elif how == "cols":
            shp = (N, K, e.pick("C", (0, 1, 2, 4))) if name == "shN" else (N, e.dim("C", hi=None if e.sym else 6))
        elif how == "bands":
            shp = (N, e.pick("C", (0, 1, 2, 9, 16)), 3)
        else:
            shp = (N,) if name != "opacities" else (N, 1, 1)
        d[name] = e.array("odd", shp, "float32", lo=-9, hi=9)
    return N, d


BAD = [None] + [(n, h) for n in GOOD for h in ("rows", "cols", "rank")] + [("shN", h) for h in ("rows", "cols", "bands")]


def grid(tier, ops):
    return [dict(op=o, bad=b, K=K) for o in ops for b in BAD for K in (0, 3, 15) if not (b and b[0] == "shN" and not K)
            if tier != "quick" or K != 15 or b is None or b[0] == "shN"]


@scenario("C08", lambda t: grid(t, ("consolidate",)), trials=4)
def containers(e, op, bad, K):
    N, d = fields(e, bad, K)
    gs = e.mod("gsply.gsdata").GSData(**d, _format=fmt(e, K))
    run(e, gs.consolidate, op)


@scenario("C08", lambda t: grid(t, ("to_rgb", "to_sh", "normalize", "denormalize")), trials=2)
def conversions(e, op, bad, K):
    N, d = fields(e, bad, K)
    gs = e.mod("gsply.gsdata").GSData(**d, _format=fmt(e, K))
    run(e, getattr(gs, op), op, held(e, *d.values()))


@scenario("C08", lambda t: grid(t, ("bytes", "arrays", "write_compressed", "container") if t != "quick" else ("bytes", "write_compressed")), trials=3, cost=9)
def encoders(e, op, bad, K):
    N, d = fields(e, bad, K)
    e.assume(e.le(N, codec.NMAX))
    W = e.mod("gsply.writer")
    a = (d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"])
    p = e.path("a.ply_compressed")
    if op == "container":
        gs = e.mod("gsply.gsdata").GSData(**d, _format=fmt(e, K))
    run(e, dict(bytes=lambda: W.compress_to_bytes(*a), arrays=lambda: W.compress_to_arrays(*a), write_compressed=lambda: W.write_compressed(p, *a),
                plywrite=lambda: W.plywrite(p, *a), container=lambda: W.compress_to_bytes(gs))[op], op)


@scenario("C08", lambda t: [dict(op=o, base=b, layout=l, K=K) for o in ("consolidate", "to_rgb", "to_sh", "normalize", "denormalize", "bytes") for K in (0, 8) for b in (False, True)
                            for l in ("c", "strided", "cols") if not (b and l == "cols")], trials=3)
def layouts(e, op, base, layout, K):
    """arrays that are views of others"""
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, layout, ranges=dict(scales=(-9, 9), opacities=(-9, 9)))
    if op == "bytes":
        run(e, lambda: e.mod("gsply.writer").compress_to_bytes(gs), op)
    else:
        run(e, getattr(gs, op), op, held(e, *(getattr(gs, n) for n in ("scales", "opacities", "quats", "sh0"))))


@scenario("C08", lambda t: [dict(mode=m, layers=L, rows=r, some=s) for m in ("and", "or") for L in ("1d", 0, 1, 2, 3, 5) for r in ("N", "M") for s in (False, True)], trials=3)
def masks(e, mode, layers, rows, some):
    N = e.dim("N")
    R = N if rows == "N" else e.dim("M")
    d = raw_fields(e, N, 0)
    m = e.array("masks", (R,) if layers == "1d" else (R, layers), "bool")
    names = ["a"] if layers == "1d" else [f"l{k}" for k in range(layers)]
    gs = e.mod("gsply.gsdata").GSData(**d, masks=m, mask_names=names, _format=fmt(e, 0))
    run(e, lambda: gs.combine_masks(mode, names[::-1] if some else None), "combine")


SHAPES = {"1d": lambda e: (e.dim("n"),), "2d": lambda e: (e.dim("n"), 3), "3d": lambda e: (e.dim("n", hi=None if e.sym else 20), 2, e.dim("m", hi=None if e.sym else 9))}


@scenario("C08", lambda t: [dict(fn=f, shape=s, layout=l) for f in ("sigmoid", "logit") for s in SHAPES for l in ("c", "strided", "f") if (s, l) != ("1d", "f")], trials=3)
def elementwise(e, fn, shape, layout):
    x = e.array("x", SHAPES[shape](e), "float32", layout=layout, lo=-20, hi=20)
    u = e.mod("gsply.utils")
    run(e, lambda: getattr(u, fn)(x), fn)


# ---------------------------------------------------------------- hostile files
def lengths(e, C, N, S, K, cut):
    return C * 72 + N * 16 + S * 3 * K


@scenario("C08", lambda t: [dict(K=K, api=a, part=p) for K in KS for a in ("bytes", "read_compressed", "plyread") for p in ("counts", "length", "good")], trials=5)
def compressed_files(e, K, api, part):
    """any element counts, any words and bounds, any number of bytes after the header"""
    N = e.dim("N", hi=codec.NMAX)
    C = codec.chunks(N) if part != "counts" else e.dim("C")
    S = N if part != "counts" else e.dim("S")
    if e.sym or part == "length":
        L = e.dim("L")
        if not e.sym:
            L = max(0, int(C) * 72 + int(N) * 16 + int(S) * 3 * K + e.pick("more", (0, -1, 1, -16, 40, -72)))
        if part == "good":
            L = C * 72 + N * 16 + S * 3 * K
    else:
        L = int(C) * 72 + int(N) * 16 + int(S) * 3 * K
    body = e.array("body", (L,), "uint8")
    data = e.join(e.text(codec.header_fmt(K).replace("%s", "%d"), C, N, *((S,) if K else ())), body)
    r = e.mod("gsply.reader")
    if api == "bytes":
        run(e, lambda: r.decompress_from_bytes(data), api)
    else:
        p = e.put_file("a.ply", data)
        run(e, lambda: getattr(r, api)(p), api)


def free(e, name):
    return e.dim(name + "_h", lo=1, hi=None if e.sym else 6), e.dim(name + "_w", lo=1, hi=None if e.sym else 9)


@scenario("C08", lambda t: [dict(K=K, version=v, ch=c, odd=o) for K in SKS for v in (2, 3) for c in (3, 4) for o in ("lo", "hi", "rot", "sc", "col", "lab", "cen", "all")
                            if (K or o not in ("lab", "cen")) and (t != "quick" or c == 4 or o in ("all", "rot"))], trials=4)
def sog_textures(e, K, version, ch, odd):
    """textures of any size, independent of the number of Gaussians, the palette and the bands"""
    N = e.dim("N", hi=None if e.sym else 30)
    s = {o: free(e, o) for o in (("lo", "hi", "rot", "sc", "col", "lab") if odd == "all" else (odd,)) if o != "cen"}
    if odd == "cen":
        s["cen"] = free(e, "cen") if e.sym or e.pick("narrow", (0, 1)) else (e.dim("cen_h", lo=1, hi=4), 64 * K)
    s["palette"] = e.dim("palette", hi=None if e.sym else 300)
    b = Bundle(e, K, version, ch, N=N, sizes=s)
    run(e, lambda: raise_(b.load()), "sogread")


@scenario("C08", lambda t: [dict(K=K, table=k) for K in (0, 3, 15) for k in ("sc", "col", "sh") if K or k != "sh"], trials=6)
def sog_tables(e, K, table):
    """codebooks of any length"""
    L = e.dim("L", hi=300)
    b = Bundle(e, K, 2, 4, N=e.dim("N", hi=None if e.sym else 30), L=dict(sc=256, col=256, sh=256) | {table: L})
    run(e, lambda: raise_(b.load()), "sogread")


def raise_(pair):
    r, ex = pair
    if ex is not None:
        raise ex
    return r
