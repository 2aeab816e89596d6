"""C20  SOG decoding follows the format and rejects inconsistent bundles."""
from vc.scn import scenario
from .common import norm_shn
from .sog import DEG, KINDS, KS, Bundle, grid


def check(e, b, r, name):
    N, K = b.N, b.K
    e.prove(e.eq(e.len(r), N), name + ":count")
    e.prove(r.get_sh_degree() == DEG[K], name + ":degree")
    D = e.mod("gsply.gsdata").DataFormat
    f = r._format
    e.prove(f["scales"] == D.SCALES_PLY and f["opacities"] == D.OPACITIES_PLY and f["sh0"] == D.SH0_SH, name + ":format")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.means, i, k), b.mean(i, k)), name + ":means")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.scales, i, k), b.scale(i, k)), name + ":scales")
    e.forall((N, 3), lambda i, k: e.feq(e.get(r.sh0, i, k), b.colour(i, k)), name + ":sh0")
    e.forall((N,), lambda i: e.feq(e.get(r.opacities, i), b.opacity(i)), name + ":opacities")

    def quat(i):
        big, v, d = b.quat(i)
        out = {}
        for c in range(4):
            got = e.get(r.quats, i, c)
            if v[c] is None:
                out[f"{big}{c}"] = e.and_(e.ge(got, 0), e.near(got * got, e.max(d, 0), e.q("0.00001")))
            else:
                out[f"{big}{c}"] = e.near(got, v[c], e.q("0.00001"))
        return out
    e.forall((N,), quat, name + ":quats")
    if K:
        e.prove(tuple(int(x) for x in e.shape(r.shN)[1:]) == (K, 3), name + ":sh-shape")
        e.forall((N, K, 3), lambda i, j, c: e.feq(e.get(r.shN, i, j, c), b.sh(i, j, c)), name + ":shN")
    else:
        e.prove(norm_shn(r.shN) is None, name + ":no-sh")


@scenario("C20", lambda t: [dict(K=K, version=v, ch=ch) for K in KS for v in (2, 3) for ch in (3, 4)], trials=10)
def values(e, K, version, ch):
    b = Bundle(e, K, version, ch)
    r, ex = b.load()
    e.prove(r is not None, "loaded")
    if r is not None:
        check(e, b, r, "load")


@scenario("C20", lambda t: [dict(K=K, version=v, kind=k) for K in ((0, 3) if t == "quick" else KS) for v in (2, 3) for k in KINDS[1:]], trials=5)
def containers(e, K, version, kind):
    b = Bundle(e, K, version, 4)
    r, ex = b.load(kind)
    e.prove(r is not None, "loaded")
    if r is not None:
        check(e, b, r, "load")


TEX = ("lo", "hi", "rot", "sc", "col", "lab")


@scenario("C20", lambda t: [dict(K=K, version=v, small=s) for K in (0, 3, 15) for v in (2, 3) for s in TEX if K or s != "lab"], trials=8)
def texture_too_small(e, K, version, small):
    N = e.dim("N", lo=2)
    b = Bundle(e, K, version, 4, N=N, sizes={small: grid(e, small, N, fits=False)})
    r, ex = b.load()
    e.prove(ex is not None, "refused")


@scenario("C20", lambda t: [dict(K=K, version=v) for K in KS[1:] for v in (2, 3)], trials=10)
def palette_texture(e, K, version):
    """centroid textures of any size"""
    N = e.dim("N")
    H = e.dim("cen_h", lo=1, hi=None if e.sym else 6)
    W = e.dim("cen_w", lo=1) if e.sym else e.pick("cen_w", (64 * K, 64 * K - 1, 64 * K + 1, 64, 128 * K))
    P = e.dim("palette", hi=None if e.sym else 400)
    b = Bundle(e, K, version, 4, N=N, sizes=dict(cen=(H, W), palette=P))
    r, ex = b.load()
    if not e.truth(e.eq(W, 64 * K)):
        e.prove(ex is not None, "refused:width")
    elif version == 2 and e.truth(e.gt(P, 64 * H)):
        e.prove(ex is not None, "refused:height")


@scenario("C20", lambda t: [dict(table=k, K=K) for k in ("sc", "col") for K in (0, 3)], trials=12)
def codebook_too_short(e, table, K):
    """scale and colour codebooks of any length: refused exactly when an index is outside"""
    N = e.dim("N")
    L = e.dim("L", hi=256)
    b = Bundle(e, K, 2, 4, N=N, L=dict(sc=256, col=256, sh=256) | {table: L})
    im = b.sc if table == "sc" else b.col
    r, ex = b.load()
    if r is not None:
        e.forall((N, 3), lambda i, k: e.lt(im(i, k), L), "loaded:indices-inside")
    else:
        e.prove(e.exists(0, N, lambda i: e.or_(*[e.ge(im(i, k), L) for k in range(3)])), "refused:index-outside")


@scenario("C20", lambda t: [dict(K=K, L=L) for K in KS[1:] for L in (0, 1, 100)], trials=6)
def short_sh_codebook(e, K, L):
    """entries past the SH codebook read as zero"""
    b = Bundle(e, K, 2, 4, L=dict(sc=256, col=256, sh=L))
    r, ex = b.load()
    e.prove(r is not None, "loaded")
    if r is None:
        return

    def sh(i, j, c):
        label = b.labels(i, 0) + 256 * b.labels(i, 1)
        x = e.get(r.shN, i, j, c)
        if not e.truth(e.lt(label, b.P)):
            return e.eq(x, 0)
        t = b.cen((label // 64) * (64 * K) + (label % 64) * K + j, c)
        if e.truth(e.lt(t, L)):
            return e.eq(x, e.get(b.shb, t))
        return e.eq(x, 0)
    e.forall((b.N, K, 3), sh, "shN")


@scenario("C20", lambda t: [dict(version=v, kind=k, K=K) for v in (2, 3) for k in KINDS for K in (0, 3)], trials=12)
def missing_entry(e, version, kind, K):
    b = Bundle(e, K, version, 4)
    what = e.pick("missing", ["meta.json"] + sorted(b.files))
    if what == "meta.json":
        b.meta = None
    else:
        del b.files[what]
    r, ex = b.load(kind)
    e.prove(ex is not None, f"{what}:refused")


@scenario("C20", lambda t: [dict(version=v, K=K) for v in (2, 3) for K in (0, 3)], trials=25)
def broken_meta(e, version, K):
    """metadata that lacks a field or has a table of the wrong size"""
    b = Bundle(e, K, version, 4)
    m = b.meta
    cuts = [("means",), ("means", "files"), ("means", "mins"), ("means", "maxs"), ("quats",), ("quats", "files"), ("scales",), ("scales", "files"), ("sh0",), ("sh0", "files")]
    if version == 2:
        cuts += [("scales", "codebook"), ("sh0", "codebook")]
        cuts += [("shN", "bands"), ("shN", "count"), ("shN", "codebook"), ("shN", "files")] if K else []
    else:
        cuts += [("scales", "mins"), ("scales", "maxs"), ("sh0", "mins"), ("sh0", "maxs"), ("means", "shape")]
        cuts += [("shN", "mins"), ("shN", "maxs"), ("shN", "shape"), ("shN", "files")] if K else []
    path = e.pick("cut", cuts)
    how = e.pick("how", ("gone", "short"))
    d = m
    for k in path[:-1]:
        d = d[k]
    v = d[path[-1]]
    if how == "short":
        if not isinstance(v, list) or path[-1] == "shape":
            e.assume(False)
        d[path[-1]] = v[:-1]
    else:
        del d[path[-1]]
    r, ex = b.load()
    e.prove(ex is not None, f"{'.'.join(path)}:{how}")


@scenario("C20", lambda t: [dict(kind=k) for k in KINDS], trials=12)
def not_a_bundle(e, kind):
    what = e.pick("what", ("empty", "junk", "no-json", "json-list", "bad-image", "no-file"))
    S = e.mod("gsply.sog_reader").sogread
    if what == "no-file":
        arg = e.path("missing.sog")
    elif what in ("empty", "junk"):
        data = b"" if what == "empty" else b"this is not a zip archive"
        arg = data if kind == "bytes" else e.put_file("x.sog", data)
    else:
        b = Bundle(e, 0, 2, 4)
        if what == "no-json":
            b.meta = b"{nope"
        elif what == "json-list":
            b.meta = b"[1, 2]"
        else:
            b.files[e.pick("file", sorted(b.files))] = b"RIFFxxxx"
        arg = e.bundle(b.meta, b.files, kind)
    r, ex = e.attempt(S, arg)
    e.prove(ex is not None, f"{what}:refused")
