"""C03  the compressed round trip stays within the quantisation error."""
from vc.scn import scenario
from . import c05, codec
from .common import DEGREE, mk_gs, norm_shn, snap

KS = (0, 3, 8, 15)
WIDE = {"scales": (-40, 30), "opacities": (-30, 30)}
PAIRS = [("bytes", "bytes"), ("plywrite", "plyread"), ("save", "load"), ("write_compressed", "read_compressed"), ("arrays", "bytes"), ("bytes", "read_compressed")]


def decode(e, data, api):
    r = e.mod("gsply.reader")
    if api == "bytes":
        return r.decompress_from_bytes(data)
    p = e.put_file("again.ply", data)
    if api == "plyread":
        return e.mod("gsply").plyread(p)
    if api == "load":
        return e.mod("gsply.gsdata").GSData.load(p)
    return r.read_compressed(p)


def within(e, d, tol):
    return e.and_(e.le(d, tol), e.le(0 - tol, d))


def start(e, K, base, enc="bytes", dec="bytes", layout="c"):
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, layout, ranges=WIDE)
    s = snap(e, gs)
    data = c05.encode(e, gs, enc)
    r = decode(e, data, dec)
    e.prove(r is not None, "loaded")
    e.prove(e.eq(e.len(r), N), "count")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")
    _, off = e.header_of(data)
    return N, s, codec.File(e, data, N, K, off), r


@scenario("C03", lambda t: [dict(K=0, base=False), dict(K=3, base=True)] + ([dict(K=8, base=True), dict(K=15, base=False)] if t == "thorough" else []), trials=6)
def positions_scales_colours(e, K, base):
    N, s, f, r = start(e, K, base)
    codec.check_bounds(e, f, s, "chunks")
    src = {"means": s["means"], "scales": s["scales"], "color": s["sh0"]}
    got = {"means": r.means, "scales": r.scales, "color": r.sh0}
    for a, (lo, hi, _, fields) in codec.FIELDS3.items():
        for j, (sh, wd) in enumerate(fields):
            def claim(i, a=a, j=j, lo=lo, hi=hi, wd=wd):
                c = i // codec.CHUNK
                m, M = f.bound(c, lo + j), f.bound(c, hi + j)
                v, w = e.get(src[a], i, j), e.get(got[a], i, j)
                if a == "scales":
                    v = e.clip(v, -20, 20)
                if a == "color":
                    v, w = v * e.q(codec.C0) + e.q("0.5"), w * e.q(codec.C0) + e.q("0.5")
                tol = (M - m) * e.q("0.501") / ((1 << wd) - 1) + e.q("0.000000001") * (1 + e.abs(w))
                if not e.sym:
                    tol += 2e-6 * (abs(m) + abs(M) + 1)
                return within(e, w - v, tol)
            e.forall((N,), claim, f"{a}{j}")


@scenario("C03", lambda t: [dict(K=0, base=False), dict(K=3, base=True)] + ([dict(K=8, base=True), dict(K=15, base=False)] if t == "thorough" else []), trials=6)
def opacity_rotation(e, K, base):
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, ranges=WIDE)
    s = snap(e, gs)
    data = c05.encode(e, gs, "bytes")
    h, off = e.header_of(data)
    f = codec.File(e, data, N, K, off)
    # the encoder's contract ...
    tol = e.q("0.501")
    e.forall((N,), lambda i: codec.opacity_claim(e, f, s, i, tol), "encoded:opacity")
    e.forall((N,), lambda i: codec.quat_claims(e, f, s, i, tol), "encoded:rotation")
    # ... is all that is known of the file from here on
    data, f = codec.havoc(e, f, h)
    r = decode(e, data, "bytes")
    e.prove(e.eq(e.len(r), N), "count")
    half = e.q("0.501")
    eps = e.q(0) if e.sym else e.q("1e-6")

    def opac(i):
        e.known(codec.opacity_claim(e, f, s, i, tol))
        b = e.bits(f.word(i, codec.COL), 0, 8)
        if not e.truth(e.eq(b, 0)):
            e.truth(e.eq(b, 255))
        o = 1 / (1 + e.exp(0 - e.get(s["opacities"], i)))
        p = 1 / (1 + e.exp(0 - e.get(r.opacities, i)))
        e.derive("opacity-decoded", dict(o=o, p=p, b=b),
                 lambda t: {"encoded": within(e, t["b"] - t["o"] * 255, half), "decoded": e.and_(e.near(t["p"], t["b"] * e.q(1) / 255, e.q("0.0005")),
                            e.or_(e.eq(t["b"], 0), e.eq(t["b"], 255), e.near(t["p"], t["b"] * e.q(1) / 255, e.q("0.000001")))),
                            "range": e.and_(e.ge(t["p"], 0), e.le(t["p"], 1), e.ge(t["o"], 0), e.le(t["o"], 1))},
                 lambda t: e.or_(within(e, t["o"] - t["p"], half / 255 + e.q("0.000001") + eps)))
        return {}
    e.forall((N,), opac, "opacity")

    def rot(i):
        w = f.word(i, codec.ROT)
        idx = e.bits(w, 30, 2)
        for big in range(4):
            if not e.truth(e.eq(idx, big)):
                continue
            p = [e.get(r.quats, i, k) for k in range(4)]
            q = [e.get(s["quats"], i, k) for k in range(4)]
            n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
            if not e.truth(e.gt(n2, 0)) or (not e.sym and n2 < 1e-30):
                return {}
            e.known(codec.quat_claims(e, f, s, i, tol))
            n = e.sqrt(n2)
            h = e.sqrt(2) * e.q("0.5")
            pos = e.truth(e.ge(q[big], 0))
            small = [k for k in range(4) if k != big]
            one = e.q("1" if e.sym else "1.000001")
            # the unit quaternion, signed so that the stored component is positive
            u = [q[k] * (1 / n) for k in range(4)]
            if not pos:
                u = [0 - x for x in u]
            qs = {f"q{k}": q[k] for k in range(4)}
            e.derive(f"normalised{big}", dict(n=n, **qs), lambda t: {"norm": e.and_(e.gt(t["n"], 0), e.eq(t["n"] * t["n"], sum(t[f"q{k}"] * t[f"q{k}"] for k in range(4))))},
                     lambda t: e.near(sum((t[f"q{k}"] * (1 / t["n"])) * (t[f"q{k}"] * (1 / t["n"])) for k in range(4)), 1, e.q(0) if e.sym else e.q("1e-5")))
            for k in small:
                e.derive(f"largest{big}{k}", dict(a=q[k], b=q[big], n=n), lambda t: {"of-stored": e.and_(e.le(e.abs(t["a"]), e.abs(t["b"]) * one), e.gt(t["n"], 0))},
                         lambda t: e.le(e.abs(t["a"] * (1 / t["n"])), e.abs(t["b"] * (1 / t["n"])) * one))
            us = {f"u{k}": u[k] for k in range(4)}
            e.derive(f"small{big}", us, lambda t: {"unit": e.near(sum(x * x for x in t.values()), 1, e.q(0)), "largest": e.and_(*[e.le(e.abs(t[f"u{k}"]), e.abs(t[f"u{big}"])) for k in small])},
                     lambda t: e.and_(*[e.le(e.abs(t[f"u{k}"]), e.q("0.7071068") + eps) for k in small]))
            for k, sh in zip(small, (20, 10, 0)):
                e.derive(f"component{big}{k}", dict(b=e.bits(w, sh, 10), v=u[k], p=p[k], h=h),
                         lambda t: {"encoded": within(e, t["b"] - e.clip(t["v"] * t["h"] + e.q("0.5"), 0, 1) * 1023, half), "h": e.near(t["h"], e.q("0.70710678"), e.q("0.00000001")),
                                    "decoded": e.near(t["p"], (t["b"] * e.q(1) / 1023 - e.q("0.5")) * e.q("1.4142135623730951"), e.q("0.000001")),
                                    "range": e.le(e.abs(t["v"]), e.q("0.7071068"))},
                         lambda t: within(e, t["p"] - t["v"], e.q("0.000694") + eps))
            for k in small:
                e.derive(f"square{big}{k}", dict(p=p[k], u=u[k], b=u[big]), lambda t: {"close": e.near(t["p"], t["u"], e.q("0.000694")), "small": e.le(e.abs(t["u"]), e.q("0.7071068")),
                                                                                   "largest": e.le(e.abs(t["u"]), e.abs(t["b"]) * one)},
                         lambda t: e.and_(e.le(t["p"] * t["p"], t["u"] * t["u"] + e.q("0.001") + eps), e.le(t["u"] * t["u"], t["b"] * t["b"] * one * one)))
            e.derive(f"unit{big}", dict(pb=p[big], ub2=u[big] * u[big], pb2=p[big] * p[big], **{f"p{k}": p[k] * p[k] for k in small}, **{f"u{k}": u[k] * u[k] for k in small}),
                     lambda t: {"close": e.and_(*[e.and_(e.le(t[f"p{k}"], t[f"u{k}"] + e.q("0.001")), e.le(t[f"u{k}"], t["ub2"])) for k in small]),
                                "unit": e.near(sum(t[f"u{k}"] for k in small) + t["ub2"], 1, e.q(0)),
                                "rest": e.and_(e.ge(t["pb"], 0), e.near(t["pb2"], e.max(0, 1 - sum(t[f"p{k}"] for k in small)), e.q("0.000001")))},
                     lambda t: e.and_(e.ge(t["pb"], 0), e.near(t["pb2"] + sum(t[f"p{k}"] for k in small), 1, e.q("0.00001"))))
            return {}
        return {"index": False}
    e.forall((N,), rot, "rotation")


@scenario("C03", lambda t: [dict(K=K, base=b) for K in KS for b in (False, True)], trials=4)
def sh_coefficients(e, K, base):
    N, s, f, r = start(e, K, base)
    if not K:
        e.prove(norm_shn(r.shN) is None, "no-sh")
        return

    def sh(i, b, c):
        x = e.get(s["shN"], i, b, c)
        d = e.get(r.shN, i, b, c) - x
        ok = e.and_(e.ge(x, -4), e.le(x, e.q("3.96")))
        return e.implies(ok, within(e, d, e.q("0.015625") + (e.q(0) if e.sym else e.q("1e-6"))))
    e.forall((N, K, 3), sh, "sh")
