"""C15  Colour and scalar conversions are exact mutual inverses."""
from fractions import Fraction

from vc.scn import scenario
from .c14 import logit_, sig
from .common import C0, mk_gs, same, snap

SHAPES = {"1d": lambda e: (e.dim("n"),), "rows3": lambda e: (e.dim("n"), 3), "square": lambda e: (e.dim("n"), e.dim("m", hi=None if e.sym else 60)),
          "cube": lambda e: (e.dim("n", hi=None if e.sym else 60), 2, e.dim("m", hi=None if e.sym else 40))}
LAYOUTS = ("c", "strided", "f")
ALL = [(s, l) for s in SHAPES for l in LAYOUTS if not (s == "1d" and l == "f")]


def clamp(e, x, eps):
    return e.clip(x, eps, 1 - eps)


def each(e, r, x, shape, fn, name):
    """r has the shape of x, and element i is fn(element i of x)"""
    sr = e.shape(r)
    e.prove(len(sr) == len(shape), name + ":ndim")
    for k, n in enumerate(shape):
        e.prove(e.eq(sr[k], n), f"{name}:shape{k}")
    fr, fx = e.freeze(r), e.freeze(x)
    e.forall(shape, lambda *i: fn(e.get(fr, *i), e.get(fx, *i)), name)


@scenario("C15", lambda t: [dict(shape=s, layout=l, dtype=d) for s, l in ALL for d in ("float32", "float64")], trials=6)
def arrays(e, shape, layout, dtype):
    u = e.mod("gsply.utils")
    shp = SHAPES[shape](e)
    x = e.array("x", shp, dtype, layout=layout, lo=-80, hi=80)
    f = e.freeze(x)
    c0 = e.q(C0)
    rgb = u.sh2rgb(x)
    each(e, rgb, f, shp, lambda y, v: e.feq(y, v * c0 + e.q("0.5")), "sh2rgb")
    each(e, u.rgb2sh(x), f, shp, lambda y, v: e.feq(y, (v - e.q("0.5")) / c0), "rgb2sh")
    back = u.rgb2sh(rgb)
    each(e, back, f, shp, lambda y, v: e.near(y, v, e.q("0.0001")) if not e.sym else e.eq(y, v), "sh-rgb-sh")
    each(e, u.sigmoid(x), f, shp, lambda y, v: e.and_(e.feq(y, sig(e, v)), e.ge(y, 0), e.le(y, 1)), "sigmoid")
    e.same_array(x, f, "argument")


@scenario("C15", lambda t: [dict(shape=s, layout=l, dtype=d, eps=p) for s, l in ALL for d in ("float32", "float64") for p in ("default", "any")], trials=6)
def array_logit(e, shape, layout, dtype, eps):
    u = e.mod("gsply.utils")
    shp = SHAPES[shape](e)
    x = e.array("x", shp, dtype, layout=layout, lo=-1, hi=2)
    f = e.freeze(x)
    if eps == "any":
        p = e.real("eps", Fraction("1e-6"), Fraction("0.49"))
        r = u.logit(x, p)
    else:
        p = e.q("1e-6")
        r = u.logit(x)
    tol = e.q("0.00001")
    if e.sym:
        each(e, r, f, shp, lambda y, v: e.eq(y, logit_(e, clamp(e, v, p))), "logit")
        each(e, u.sigmoid(r), f, shp, lambda y, v: e.eq(y, clamp(e, v, p)), "inverts-sigmoid")
    else:
        # float32 cannot tell 1 - 1e-6 from its neighbours: compare after the sigmoid
        each(e, u.sigmoid(r), f, shp, lambda y, v: e.near(y, clamp(e, v, p), tol), "inverts-sigmoid")
        each(e, r, f, shp, lambda y, v: e.or_(e.near(y, logit_(e, clamp(e, v, p)), e.q("0.02")), e.lt(min(v, 1 - v), 0.0001)), "logit")
        each(e, r, f, shp, lambda y, v: e.near(y, logit_(e, clamp(e, v, p)), e.q("0.2")), "logit-near-bounds")
    e.same_array(x, f, "argument")


@scenario("C15", lambda t: [dict(dtype=d) for d in ("int64", "int32", "uint8", "bool")], trials=6)
def integer_arrays(e, dtype):
    u = e.mod("gsply.utils")
    n = e.dim("n")
    x = e.array("x", (n,), dtype) if dtype == "bool" else e.array("x", (n,), dtype, lo=0 if dtype == "uint8" else -30, hi=30)
    f = e.freeze(x)

    def v(i):
        y = e.get(f, i)
        return e.ite(y, 1, 0) if dtype == "bool" else y
    s = e.freeze(u.sigmoid(x))
    e.forall((n,), lambda i: e.feq(e.get(s, i), sig(e, v(i) * e.q(1))), "sigmoid")
    t = e.freeze(u.logit(x))
    p = e.q("1e-6")
    e.forall((n,), lambda i: e.feq(e.get(t, i), logit_(e, clamp(e, v(i) * e.q(1), p))), "logit")
    if dtype != "bool":
        c = e.freeze(u.sh2rgb(x))
        e.forall((n,), lambda i: e.feq(e.get(c, i), v(i) * e.q(C0) + e.q("0.5")), "sh2rgb")


@scenario("C15", [{}], trials=40)
def scalars(e):
    u = e.mod("gsply.utils")
    x = e.real("x", -80, 80)
    c0 = e.q(C0)
    e.prove(e.feq(u.sh2rgb(x), x * c0 + e.q("0.5")), "sh2rgb")
    e.prove(e.feq(u.rgb2sh(x), (x - e.q("0.5")) / c0), "rgb2sh")
    e.prove(e.near(u.rgb2sh(u.sh2rgb(x)), x, e.q("0.000001")), "sh-rgb-sh")
    e.prove(e.near(u.sh2rgb(u.rgb2sh(x)), x, e.q("0.000001")), "rgb-sh-rgb")
    s = u.sigmoid(x)
    e.prove(e.and_(e.feq(s, sig(e, x)), e.ge(s, 0), e.le(s, 1)), "sigmoid")
    y = e.real("y", -1, 2)
    p = e.real("eps", Fraction("1e-9"), Fraction("0.49"))
    e.prove(e.feq(u.logit(y, p), logit_(e, clamp(e, y, p))), "logit")
    e.prove(e.near(u.sigmoid(u.logit(y, p)), clamp(e, y, p), e.q("0.000001")), "sigmoid-logit")
    if e.truth(e.and_(e.ge(s, p), e.le(s, 1 - p))):
        def hyps(t):
            return dict(odds=e.eq(t["s"], t["z"] * (1 - t["s"])), below=e.lt(t["s"], 1), exp=e.eq(t["z"], e.exp(t["x"])))
        if e.sym:
            e.derive("odds", dict(s=s, z=e.exp(x), x=x), hyps, lambda t: e.eq(t["s"] / (1 - t["s"]), t["z"]))
        e.prove(e.near(u.logit(s, p), x, e.q("0.001")), "logit-sigmoid")


@scenario("C15", lambda t: [dict(K=K, base=b, layout=l, inplace=p, way=w) for K in (0, 3) for b, l in ((False, "c"), (False, "strided"), (False, "cols"), (True, "c"), (True, "strided"))
                            for p in (True, False) for w in ("rgb", "sh")], trials=6)
def methods(e, K, base, layout, inplace, way):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout, 1, sh0="sh" if way == "rgb" else "rgb")
    s = snap(e, gs)
    D = e.mod("gsply.gsdata").DataFormat
    c0, h = e.q(C0), e.q("0.5")
    there = (lambda v: v * c0 + h) if way == "rgb" else (lambda v: (v - h) / c0)
    one, two = ("to_rgb", "to_sh") if way == "rgb" else ("to_sh", "to_rgb")
    r = getattr(gs, one)(inplace=inplace)
    e.prove((r is gs) == inplace, "same-object")
    each(e, r.sh0, s["sh0"], (N, 3), lambda y, v: e.feq(y, there(v)), one)
    same(e, r, s, "untouched", fields=("means", "scales", "quats", "opacities", "shN"), format_=False)
    e.prove(dict(r._format) == {**s["_format"], "sh0": D.SH0_RGB if way == "rgb" else D.SH0_SH}, "format")
    if not inplace:
        same(e, gs, s, "argument", shn_strict=True)
    q = getattr(r, two)(inplace=inplace)
    each(e, q.sh0, s["sh0"], (N, 3), lambda y, v: e.eq(y, v) if e.sym else e.near(y, v, 0.0001), two)
    same(e, q, s, "back", fields=("means", "scales", "quats", "opacities", "shN"))
