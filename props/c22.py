"""C22  Activation functions respect their bounds and reject bad parameters."""
from fractions import Fraction

from vc.scn import scenario
from .c14 import logit_, sig, unit_quat
from .common import mk_gs, raw_fields, fmt, same, snap

WAYS = [(False, "c"), (False, "strided"), (True, "c")]


def fns(e):
    u = e.mod("gsply.utils")
    return u.apply_pre_activations, u.apply_pre_deactivations


@scenario("C22", lambda t: [dict(K=K, base=b, layout=l, inplace=p, quats=q) for K in (0, 3) for b, l in WAYS for p in (True, False)
                            for q in (("near", "tiny", "huge") if K == 0 else ("near",))], trials=8)
def activate(e, K, base, layout, inplace, quats):
    """every parameter value the documentation allows"""
    N = e.dim("N")
    w = Fraction(dict(near="2", tiny="1e-30", huge="1e30")[quats])
    gs = mk_gs(e, N, K, base, layout, 0, ranges=dict(scales=(-30, 30), opacities=(-60, 60), quats=(-w, w)))
    s = snap(e, gs)
    lo = e.real("min_scale", Fraction("1e-12"), 50)
    hi = e.real("max_scale", Fraction("1e-12"), 500)
    fl = e.real("min_norm", Fraction("1e-40"), 3)
    e.assume(e.and_(e.gt(lo, 0), e.ge(hi, lo), e.gt(fl, 0)))
    r = fns(e)[0](gs, min_scale=lo, max_scale=hi, min_quat_norm=fl, inplace=inplace)
    e.prove((r is gs) == inplace, "same-object")
    e.prove(e.eq(e.shape(r.scales)[0], N), "count")
    tol = e.q("0.000001")

    def scale(i, k):
        x = e.get(r.scales, i, k)
        return dict(value=e.feq(x, e.clip(e.exp(e.get(s["scales"], i, k)), lo, hi)), low=e.ge(x, lo * (1 - tol)), high=e.le(x, hi * (1 + tol)))
    e.forall((N, 3), scale, "scales")
    e.forall((N,), lambda i: dict(value=e.feq(e.get(r.opacities, i), sig(e, e.get(s["opacities"], i))),
                                  bound=e.and_(e.ge(e.get(r.opacities, i), 0), e.le(e.get(r.opacities, i), 1))), "opacities")
    unit_quat(e, r, s, N, "unit", fl)

    def length(i):
        g = [e.get(r.quats, i, c) for c in range(4)]
        q = [e.get(s["quats"], i, c) for c in range(4)]
        n = e.sqrt(sum(x * x for x in q))
        if e.truth(e.lt(n, fl)):
            return True
        return e.near(sum(x * x for x in g), 1, e.q("0.00001"))
    e.forall((N,), length, "length")
    same(e, r, s, "untouched", fields=("means", "sh0", "shN"))
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)


@scenario("C22", lambda t: [dict(K=K, base=b, layout=l, inplace=p) for K in (0, 3) for b, l in WAYS for p in (True, False)], trials=10)
def deactivate(e, K, base, layout, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout, 0, f="linear", ranges=dict(scales=(-1, 30), opacities=(-1, 2)))
    s = snap(e, gs)
    ms = e.real("min_scale", Fraction("1e-30"), 50)
    lo = e.real("min_opacity", Fraction("1e-12"), 1)
    hi = e.real("max_opacity", 0, 1) if e.sym else e.pick("max_opacity", (1 - 1e-9, 0.9999, 0.5, 0.99, 0.25))
    e.assume(e.and_(e.gt(ms, 0), e.gt(lo, 0), e.lt(hi, 1), e.gt(hi, lo)))
    r = fns(e)[1](gs, min_scale=ms, min_opacity=lo, max_opacity=hi, inplace=inplace)
    e.prove((r is gs) == inplace, "same-object")
    e.prove(e.eq(e.shape(r.scales)[0], N), "count")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.scales, i, k), e.log(e.max(e.get(s["scales"], i, k), ms))), "scales")
    e.forall((N,), lambda i: e.feq(e.get(r.opacities, i), logit_(e, e.clip(e.get(s["opacities"], i), lo, hi))), "opacities")
    same(e, r, s, "untouched", fields=("means", "quats", "sh0", "shN"))
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)


BAD_A = ("min_scale", "max_scale", "order", "min_quat_norm", "nan0", "nan1", "nan2")
BAD_D = ("min_scale", "min_opacity", "max_opacity", "order", "nan0", "nan1", "nan2")


def refused(e, fn, gs, s, name, kw):
    r, ex = e.attempt(lambda: fn(gs, **kw))
    e.prove(isinstance(ex, ValueError), name + ":refused")
    same(e, gs, s, name + ":argument", shn_strict=True)


@scenario("C22", lambda t: [dict(what=w, base=b, inplace=p) for w in BAD_A for b in (False, True) for p in (True, False)], trials=5)
def bad_activation(e, what, base, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, 0, base, "c", 1)
    s = snap(e, gs)
    lo, hi, fl = e.real("min_scale", -2, 3), e.real("max_scale", -2, 5), e.real("min_norm", -1, 1)
    if what == "min_scale":
        e.assume(e.le(lo, 0))
    elif what == "max_scale":
        e.assume(e.le(hi, 0))
    elif what == "order":
        e.assume(e.lt(hi, lo))
    elif what == "min_quat_norm":
        e.assume(e.le(fl, 0))
    else:
        if e.sym:
            return
        v = [max(abs(lo), 0.1), max(abs(hi), 4), max(abs(fl), 0.1)]
        v[int(what[-1])] = float("nan")
        lo, hi, fl = v
    refused(e, fns(e)[0], gs, s, what, dict(min_scale=lo, max_scale=hi, min_quat_norm=fl, inplace=inplace))


@scenario("C22", lambda t: [dict(what=w, base=b, inplace=p) for w in BAD_D for b in (False, True) for p in (True, False)], trials=5)
def bad_deactivation(e, what, base, inplace):
    N = e.dim("N")
    gs = mk_gs(e, N, 0, base, "c", 1, f="linear")
    s = snap(e, gs)
    ms, lo, hi = e.real("min_scale", -2, 3), e.real("min_opacity", -1, 2), e.real("max_opacity", -1, 2)
    if what == "min_scale":
        e.assume(e.le(ms, 0))
    elif what == "min_opacity":
        e.assume(e.le(lo, 0))
    elif what == "max_opacity":
        e.assume(e.ge(hi, 1))
    elif what == "order":
        e.assume(e.le(hi, lo))
    else:
        if e.sym:
            return
        v = [0.1, 0.2, 0.9]
        v[int(what[-1])] = float("nan")
        ms, lo, hi = v
    refused(e, fns(e)[1], gs, s, what, dict(min_scale=ms, min_opacity=lo, max_opacity=hi, inplace=inplace))


SHAPES = ("scales-cols", "scales-1d", "quats-cols", "opacity-cols", "opacity-3d", "quats-rows", "opacity-rows", "no-scales", "no-opacities")


@scenario("C22", lambda t: [dict(what=w, which=f) for w in SHAPES for f in (0, 1) if not (f and "quats" in w)], trials=5)
def bad_shapes(e, what, which):
    N = e.dim("N")
    M = e.dim("M")
    d = raw_fields(e, N, 0)
    if what == "scales-cols":
        d["scales"] = e.array("bad", (N, e.pick("width", (1, 2, 4))), "float32")
    elif what == "scales-1d":
        d["scales"] = e.array("bad", (N,), "float32")
    elif what == "quats-cols":
        d["quats"] = e.array("bad", (N, e.pick("width", (1, 3, 5))), "float32")
    elif what == "opacity-cols":
        d["opacities"] = e.array("bad", (N, e.pick("width", (2, 3))), "float32")
    elif what == "opacity-3d":
        d["opacities"] = e.array("bad", (N, 1, 1), "float32")
    elif what == "quats-rows":
        e.assume(e.not_(e.eq(M, N)))
        d["quats"] = e.array("bad", (M, 4), "float32")
    elif what == "opacity-rows":
        e.assume(e.not_(e.eq(M, N)))
        d["opacities"] = e.array("bad", (M,), "float32")
    else:
        d[what[3:]] = None
    gs = e.mod("gsply.gsdata").GSData(**d, _format=fmt(e, 0))
    s = snap(e, gs)
    refused(e, fns(e)[which], gs, s, what, {})


@scenario("C22", lambda t: [dict(which=f, inplace=p) for f in (0, 1) for p in (True, False)], trials=6)
def column_opacities(e, which, inplace):
    """opacities given as an (N, 1) column keep that shape"""
    N = e.dim("N")
    d = raw_fields(e, N, 0, ranges=dict(scales=(-5, 5), opacities=(-6, 6)))
    d["opacities"] = e.array("column", (N, 1), "float32", lo=-6, hi=6)
    gs = e.mod("gsply.gsdata").GSData(**d, _format=fmt(e, 0))
    s = snap(e, gs)
    r = fns(e)[which](gs, inplace=inplace)
    e.prove(len(e.shape(r.opacities)) == 2, "shape")
    e.forall((N,), lambda i: e.feq(e.get(r.opacities, i, 0), sig(e, e.get(s["opacities"], i, 0)) if which == 0 else
                                   logit_(e, e.clip(e.get(s["opacities"], i, 0), e.q("0.0001"), 1 - e.q("0.0001")))), "opacities")
    same(e, r, s, "untouched", fields=("means", "sh0", "shN"))
