"""C14  Format conversion computes the documented functions."""
from vc.scn import scenario
from .common import mk_gs, same, snap

KS = (0, 3, 15)
WAYS = [(False, "c"), (False, "strided"), (False, "cols"), (True, "c"), (True, "strided")]


def logit_(e, p):
    return e.log(p / (1 - p))


def sig(e, x):
    return 1 / (1 + e.exp(0 - x))


def ply_values(e, r, s, N, name):
    """log of the clamped scale, logit of the clamped opacity"""
    e.prove(e.eq(e.shape(r.scales)[0], N), name + ":count")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.scales, i, k), e.log(e.max(e.get(s["scales"], i, k), e.q("1e-9")))), name + ":scales")
    e.forall((N,), lambda i: e.feq(e.get(r.opacities, i), logit_(e, e.clip(e.get(s["opacities"], i), e.q("0.0001"), 1 - e.q("0.0001")))), name + ":opacities")


def unit_quat(e, r, s, N, name, floor):
    def quat(i):
        q = [e.get(s["quats"], i, c) for c in range(4)]
        g = [e.get(r.quats, i, c) for c in range(4)]
        n = e.sqrt(sum(x * x for x in q))
        if e.truth(e.lt(n, floor)):
            return {f"identity{c}": e.eq(g[c], 1 if c == 3 else 0) for c in range(4)}
        return {f"{c}": e.feq(g[c] * n, q[c]) for c in range(4)}
    e.forall((N,), quat, name + ":quats")


def linear_values(e, r, s, N, name, lo="0.0001", hi="100", floor="1e-8"):
    """clamped exp of the log-scale, sigmoid of the logit, unit quaternion"""
    e.prove(e.eq(e.shape(r.scales)[0], N), name + ":count")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.scales, i, k), e.clip(e.exp(e.get(s["scales"], i, k)), e.q(lo), e.q(hi))), name + ":scales")
    e.forall((N,), lambda i: e.feq(e.get(r.opacities, i), sig(e, e.get(s["opacities"], i))), name + ":opacities")
    unit_quat(e, r, s, N, name, e.q(floor))


def grid(tier):
    return [dict(K=K, base=b, layout=l, masks=m, inplace=p) for K in KS for b, l in WAYS for m in ((0, 2) if K == 3 else (0,)) for p in (True, False)]


@scenario("C14", grid)
def to_ply(e, K, base, layout, masks, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout, masks, f="linear", ranges=dict(scales=(-1, 200), opacities=(-1, 2)))
    s = snap(e, gs)
    r = gs.normalize(inplace=inplace)
    D = e.mod("gsply.gsdata").DataFormat
    e.prove((r is gs) == inplace, "same-object")
    ply_values(e, r, s, N, "normalize")
    same(e, r, s, "untouched", fields=("means", "quats", "sh0", "shN"), format_=False)
    e.prove(dict(r._format) == {**s["_format"], "scales": D.SCALES_PLY, "opacities": D.OPACITIES_PLY}, "format")
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)


@scenario("C14", grid)
def to_linear(e, K, base, layout, masks, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout, masks, ranges=dict(scales=(-40, 40), opacities=(-40, 40)))
    s = snap(e, gs)
    r = gs.denormalize(inplace=inplace)
    D = e.mod("gsply.gsdata").DataFormat
    e.prove((r is gs) == inplace, "same-object")
    linear_values(e, r, s, N, "denormalize")
    same(e, r, s, "untouched", fields=("means", "sh0", "shN"), format_=False)
    e.prove(dict(r._format) == {**s["_format"], "scales": D.SCALES_LINEAR, "opacities": D.OPACITIES_LINEAR}, "format")
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)


@scenario("C14", lambda t: [dict(K=K, base=b, first=a, second=c) for K in (0, 8) for b in (False, True) for a in (True, False) for c in (True, False)])
def round_trip(e, K, base, first, second):
    """linear -> PLY -> linear"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, "c", f="linear", ranges=dict(scales=(0, 150), opacities=(0, 1)))
    s = snap(e, gs)
    r = gs.normalize(inplace=first).denormalize(inplace=second)

    def scale(i, k):
        x = e.get(s["scales"], i, k)
        return e.implies(e.and_(e.ge(x, e.q("0.0001")), e.le(x, 100)), e.feq(e.get(r.scales, i, k), x))

    def opacity(i):
        x = e.get(s["opacities"], i)
        return e.implies(e.and_(e.ge(x, e.q("0.0001")), e.le(x, 1 - e.q("0.0001"))), e.feq(e.get(r.opacities, i), x))
    e.forall((N, 3), scale, "scales")
    e.forall((N,), opacity, "opacities")
    same(e, r, s, "rest", fields=("means", "sh0", "shN"), format_=True)


@scenario("C14", lambda t: [dict(dtype=d, to=x, inplace=p) for d in ("float64",) for x in ("ply", "linear") for p in (True, False)])
def other_dtype(e, dtype, to, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, 3, False, "c", 1, f="linear" if to == "ply" else "ply", dtype=dtype, ranges=dict(scales=(-3, 30), opacities=(-3, 3)))
    s = snap(e, gs)
    if to == "ply":
        r = gs.normalize(inplace=inplace)
        ply_values(e, r, s, N, "normalize")
        same(e, r, s, "untouched", fields=("means", "quats", "sh0", "shN"), format_=False)
    else:
        r = gs.denormalize(inplace=inplace)
        linear_values(e, r, s, N, "denormalize")
        same(e, r, s, "untouched", fields=("means", "sh0", "shN"), format_=False)
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)
