"""The compressed (PlayCanvas) layout, written down from the format, for use by the contracts."""
from .common import C0

CHUNK = 256
NMAX = 2 ** 31 - 512      # chunk boundaries are 32-bit
CPROPS = ["min_x", "min_y", "min_z", "max_x", "max_y", "max_z", "min_scale_x", "min_scale_y", "min_scale_z", "max_scale_x", "max_scale_y",
          "max_scale_z", "min_r", "min_g", "min_b", "max_r", "max_g", "max_b"]
VPROPS = ["packed_position", "packed_rotation", "packed_scale", "packed_color"]
POS, ROT, SCL, COL = range(4)


def chunks(n):
    return (n + CHUNK - 1) // CHUNK


def header_fmt(K):
    h = "ply\nformat binary_little_endian 1.0\nelement chunk %s\n" + "".join(f"property float {p}\n" for p in CPROPS)
    h += "element vertex %s\n" + "".join(f"property uint {p}\n" for p in VPROPS)
    if K:
        h += "element sh %s\n" + "".join(f"property uchar f_rest_{i}\n" for i in range(3 * K))
    return h + "end_header\n"


def header_args(n, K):
    return (chunks(n), n) + ((n,) if K else ())


class File:
    """accessors for the three sections of a compressed file"""

    def __init__(self, e, data, n, K, off):
        self.e, self.data, self.n, self.K, self.off = e, data, n, K, off
        self.C = chunks(n)

    def bound(self, c, k):
        return self.e.blob_at(self.data, self.off + 72 * c + 4 * k, "float32")

    def word(self, i, k):
        return self.e.blob_at(self.data, self.off + 72 * self.C + 16 * i + 4 * k, "uint32")

    def sh(self, i, k):
        return self.e.blob_at(self.data, self.off + 72 * self.C + 16 * self.n + 3 * self.K * i + k, "uint8")

    def size(self):
        return self.off + 72 * self.C + 16 * self.n + 3 * self.K * self.n


class Arrays:
    """the same accessors for the arrays an encoder returns"""

    def __init__(self, e, bounds, packed, sh, n, K):
        self.e, self.b, self.p, self.s, self.n, self.K = e, e.freeze(bounds), e.freeze(packed), None if sh is None else e.freeze(sh), n, K
        self.C = chunks(n)

    def bound(self, c, k):
        return self.e.get(self.b, c, k)

    def word(self, i, k):
        return self.e.get(self.p, i, k)

    def sh(self, i, k):
        return self.e.get(self.s, i, k)


def header_ok(e, data, n, K, name):
    h, off = e.header_of(data)
    e.prove(h is not None and e.text_eq(h, header_fmt(K), *header_args(n, K)), name + ":header")
    return off


# field: (attribute, first bound column of the minimum, of the maximum, word, [(shift, width)] per axis)
FIELDS3 = {
    "means": (0, 3, POS, [(21, 11), (11, 10), (0, 11)]),
    "scales": (6, 9, SCL, [(21, 11), (11, 10), (0, 11)]),
    "color": (12, 15, COL, [(24, 8), (16, 8), (8, 8)]),
}


def color(e, sh0):
    """display colour of the DC coefficients, in the precision of the data"""
    return e.freeze(sh0 * e.q(C0) + e.q("0.5"))


def check_bounds(e, f, s, name):
    """each chunk record holds the true minimum and maximum of its Gaussians"""
    n = f.n
    src = {"means": s["means"], "scales": s["scales"], "color": color(e, s["sh0"])}
    for a, (lo, hi, _, _) in FIELDS3.items():
        x = src[a]

        def cl(v, a=a):
            return e.clip(v, -20, 20) if a == "scales" else v

        def covers(i, j, x=x, lo=lo, hi=hi, cl=cl):
            c = i // CHUNK
            e.consider(c, i % CHUNK)
            v = cl(e.get(x, i, j))
            return {"below": e.le(f.bound(c, lo + j), v), "above": e.le(v, f.bound(c, hi + j))}
        e.forall((n, 3), covers, f"{name}:covers:{a}")

        def attained(c, j, x=x, lo=lo, hi=hi, cl=cl):
            # the record holds the value of one of the chunk's Gaussians (with "covers": the true minimum / maximum)
            m, M = f.bound(c, lo + j), f.bound(c, hi + j)
            a, b = c * CHUNK, e.min((c + 1) * CHUNK, n)
            return {"min": e.exists(a, b, lambda i: e.feq(m, cl(e.get(x, i, j)), 1e-6, 1e-7)), "max": e.exists(a, b, lambda i: e.feq(M, cl(e.get(x, i, j)), 1e-6, 1e-7))}
        e.forall((f.C, 3), attained, f"{name}:attained:{a}")


def cpu_range(e, m, M):
    return e.max(M - m, e.q("1e-10"))


def check_words(e, f, s, name, slack="0.001", spread=cpu_range, only=None, shortest=None):
    """every packed field is the rounded normalised value"""
    n = f.n
    tol = e.q("0.5") + e.q(slack)
    src = {"means": s["means"], "scales": s["scales"], "color": color(e, s["sh0"])}
    for a, (lo, hi, w, fields) in FIELDS3.items():
        x = src[a]
        if only is not None and a not in only:
            continue
        for j, (sh, wd) in enumerate(fields):
            def field(i, j=j, sh=sh, wd=wd, x=x, lo=lo, hi=hi, w=w, a=a):
                c = i // CHUNK
                m, M = f.bound(c, lo + j), f.bound(c, hi + j)
                rng = spread(e, m, M)
                v = e.get(x, i, j)
                t = e.clip((v - m) / rng, 0, 1)
                b = e.bits(f.word(i, w), sh, wd)
                d = b - t * ((1 << wd) - 1)
                # rounding of the colour itself, relative to a very small range
                extra = 0 if e.sym else ((1 << wd) - 1) * (abs(v) + 1 + abs(m)) * 3e-7 / rng
                return e.and_(e.le(d, tol + extra), e.le(0 - tol - extra, d))
            e.forall((n,), field, f"{name}:{a}{j}")

    if only is None or "opacity" in only:
        e.forall((n,), lambda i: opacity_claim(e, f, s, i, tol), f"{name}:opacity")
    if only is None or "rotation" in only:
        e.forall((n,), lambda i: quat_claims(e, f, s, i, tol, shortest), f"{name}:rotation")
    if f.K and (only is None or "sh" in only):
        def sh(i, b, c):
            x = e.get(s["shN"], i, b, c)
            v = e.clip(x * 32 + 128, 0, 255)
            d = f.sh(i, c * f.K + b) - v
            # 1/32 steps, the value lies within one step above the stored one
            return e.and_(e.le(d, e.q("0.001")), e.le(e.q("-1.001"), d))
        e.forall((n, f.K, 3), sh, f"{name}:sh")


def opacity_claim(e, f, s, i, tol):
    o = 1 / (1 + e.exp(0 - e.get(s["opacities"], i)))
    d = e.bits(f.word(i, COL), 0, 8) - o * 255
    return e.and_(e.le(d, tol), e.le(0 - tol, d))


def havoc(e, f, text):
    """a file of which only the header and the section sizes are known; what the encoder guarantees about its contents is
    brought back, element by element, from the encoder's proved contract (concretely: the file itself)"""
    if not e.sym:
        return f.data, f
    b = e.array("any_bounds", (f.C, 18), "float32")
    w = e.array("any_words", (f.n, 4), "uint32")
    sh = [e.array("any_sh", (f.n, 3 * f.K), "uint8")] if f.K else []
    data = e.join(text, b, w, *sh)
    return data, File(e, data, f.n, f.K, f.off)


def quat_claims(e, f, s, i, tol, shortest=None):
    q = [e.get(s["quats"], i, k) for k in range(4)]
    n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    if not e.truth(e.gt(n2, 0)):
        w = f.word(i, ROT)
        idx = e.bits(w, 30, 2)
        r = {"zero-index": e.eq(idx, 0)}
        for k, sh in enumerate((20, 10, 0)):
            d = e.bits(w, sh, 10) - e.q("511.5")
            r[f"zero{k}"] = e.and_(e.le(d, tol), e.le(0 - tol, d))
        return r
    if shortest is not None and not e.truth(e.ge(n2, e.q(shortest) * e.q(shortest))):
        return {"too-short": True}
    n = e.sqrt(n2)
    if shortest is not None and not e.truth(e.ge(n, e.q(shortest))):
        return {"norm": False}
    if shortest is not None and e.sym:      # the cases of the argument, settled before the word is looked at
        v = [x / n for x in q]
        a = [e.abs(x) for x in v]
        for k in range(4):
            if e.truth(e.and_(*[e.lt(a[m], a[k]) for m in range(k)], *[e.le(a[m], a[k]) for m in range(k + 1, 4)])):
                e.truth(e.lt(v[k], 0))
                break
    h = e.sqrt(2) * e.q("0.5")
    w = f.word(i, ROT)
    idx = e.bits(w, 30, 2)
    out = {}
    for big in range(4):
        if not e.truth(e.eq(idx, big)):
            continue
        for k in range(4):
            out[f"largest{big}{k}"] = e.le(e.abs(q[k]), e.abs(q[big]) * e.q("1" if e.sym else "1.000001"))
        pos = e.truth(e.ge(q[big], 0))
        for k, sh in zip([k for k in range(4) if k != big], (20, 10, 0)):
            v = q[k] * (1 / n) if shortest is None else q[k] / n
            if not pos:
                v = 0 - v
            t = e.clip(v * h + e.q("0.5"), 0, 1)
            d = e.bits(w, sh, 10) - t * 1023
            out[f"component{big}{k}"] = e.and_(e.le(d, tol), e.le(0 - tol, d))
        return out
    return {"index": False}
