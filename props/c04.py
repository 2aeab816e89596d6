"""C04  compressed decoding follows the PlayCanvas layout."""
from vc.scn import scenario
from . import codec
from .common import DEGREE, norm_shn, same, snap

KS = (0, 3, 8, 15)
HEADER = {
    "own": "ply\nformat binary_little_endian 1.0\n",
    "comment": "ply\nformat binary_little_endian 1.0\ncomment made by a scanner\n",
}


def mk_file(e, K, head="own"):
    """an arbitrary well-formed compressed file: -> (bytes, N, bounds, words, sh)"""
    N = e.dim("N", hi=codec.NMAX)
    C = codec.chunks(N)
    b = e.array("bounds", (C, 18), "float32", lo=-1000, hi=1000)
    w = e.array("words", (N, 4), "uint32")
    sh = e.array("sh", (N, 3 * K), "uint8") if K else None
    h = codec.header_fmt(K).replace(HEADER["own"], HEADER[head])
    args = (C, N) + ((N,) if K else ())
    data = e.join(e.text(h.replace("%s", "%d"), *args), b, w, *([sh] if K else []))
    return data, N, b, w, sh


def decoders(e, data, name="in"):
    r = e.mod("gsply.reader")
    g = e.mod("gsply")
    p = e.put_file(name + ".ply", data)
    return {"bytes": lambda: r.decompress_from_bytes(data), "read_compressed": lambda: r.read_compressed(p), "plyread": lambda: g.plyread(p),
            "load": lambda: e.mod("gsply.gsdata").GSData.load(p)}


def check_values(e, r, N, K, b, w, sh, name, opacity="logit"):
    def lerp(i, j, lo, hi, word, fields):
        c = i // codec.CHUNK
        s, wd = fields[j]
        m, M = e.get(b, c, lo + j), e.get(b, c, hi + j)
        t = e.bits(e.get(w, i, word), s, wd)
        return m + (M - m) * t / ((1 << wd) - 1)
    e.prove(e.eq(e.len(r), N), name + ":count")
    e.prove(r.get_sh_degree() == DEGREE[K], name + ":degree")
    for a, (lo, hi, word, fields) in codec.FIELDS3.items():
        for j in range(3):
            if a == "color":
                e.forall((N,), lambda i: e.feq(e.get(r.sh0, i, j), (lerp(i, j, lo, hi, word, fields) - e.q("0.5")) / e.q(codec.C0), 3e-5, 2e-3), f"{name}:color{j}")
            else:
                e.forall((N,), lambda i: e.feq(e.get(getattr(r, a), i, j), lerp(i, j, lo, hi, word, fields), 3e-5, 5e-4), f"{name}:{a}{j}")

    def opac(i):
        t = e.bits(e.get(w, i, codec.COL), 0, 8)
        o = e.get(r.opacities, i)
        if opacity == "sigmoid":
            return {"sigmoid": e.near(1 / (1 + e.exp(0 - o)), t * e.q(1) / 255, e.q("0.000002"))}
        if e.truth(e.eq(t, 0)):
            return {"zero": e.le(o, -9)}
        if e.truth(e.eq(t, 255)):
            return {"full": e.ge(o, 9)}
        return {"logit": e.feq(o, e.log(t / (255 - t)) if not e.sym else 0 - e.log(1 / (t * e.q(1) / 255) - 1), 1e-4, 1e-4)}
    e.forall((N,), opac, name + ":opacity")
    h = e.q("1.4142135623730951")

    def quat(i):
        q = e.get(w, i, codec.ROT)
        idx = e.bits(q, 30, 2)
        v = [(e.bits(q, s, 10) * e.q(1) / 1023 - e.q("0.5")) * h for s in (20, 10, 0)]
        d = 1 - (v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        big = None
        out = {}
        for k in range(4):
            if e.truth(e.eq(idx, k)):
                full = v[:k] + [big] + v[k:]
                for c in range(4):
                    got = e.get(r.quats, i, c)
                    if c != k:
                        out[f"{k}{c}"] = e.near(got, full[c], e.q("0.00001"))
                    else:
                        # the square root magnifies the rounding of its argument
                        out[f"{k}{c}"] = e.and_(e.near(got * got, e.max(d, 0), e.q("0.00001")), e.ge(got, 0))
        return out
    e.forall((N,), quat, name + ":rotation")
    if K:
        def shv(i, j, c):
            t = e.get(sh, i, c * K + j)
            x = e.get(r.shN, i, j, c)
            z = (t * e.q(1) - e.q("127.5")) / 32
            d = x - z
            end = e.ite(e.or_(e.eq(t, 0), e.eq(t, 255)), e.q(1) / 64, e.q(0)) + (e.q(0) if e.sym else e.q("1e-6"))
            return e.and_(e.le(d, end), e.le(0 - end, d))
        e.forall((N, K, 3), shv, name + ":sh")
    else:
        e.prove(norm_shn(r.shN) is None, name + ":no-sh")


@scenario("C04", lambda t: [dict(K=K, head=h) for K in KS for h in (("own", "comment") if t == "thorough" else ("own",))], trials=8)
def decode(e, K, head):
    data, N, b, w, sh = mk_file(e, K, head)
    r = e.mod("gsply.reader").decompress_from_bytes(data)
    check_values(e, r, N, K, e.freeze(b), e.freeze(w), e.freeze(sh), "bytes")


@scenario("C04", lambda t: [dict(K=K, head=h) for K in KS for h in ("own", "comment")], trials=6)
def same_result(e, K, head):
    """every entry point decodes the same file to the same Gaussians"""
    data, N, b, w, sh = mk_file(e, K, head)
    e.pure("gsply.reader", "_unpack_all_jit")
    if K:
        e.pure("gsply.reader", "_unpack_sh_jit")
    ds = decoders(e, data)
    s = None
    for api, fn in ds.items():
        r = fn()
        e.prove(r is not None, api + ":loaded")
        if r is None:
            return
        if s is None:
            s = snap(e, r)
        else:
            same(e, r, s, api)
