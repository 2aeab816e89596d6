"""C06  malformed or truncated PLY input is rejected, never misread."""
from vc.scn import scenario
from . import codec, ply
from .common import DEGREE, NPROPS, norm_shn

KS = (0, 3, 8, 15)
BYTES = dict(lo=0, hi=60)      # concretely: no NaN patterns


def refused(e, r, ex, api, name):
    """read_uncompressed / read_compressed report refusal by returning None"""
    e.prove(r is None and (ex is not None or api in ("read_uncompressed", "read_compressed")), name)


@scenario("C06", lambda t: [dict(K=K, api=a) for K in KS for a in ("plyread", "load", "read_uncompressed")], trials=24, alarm=60)
def uncompressed_size(e, K, api):
    """any declared count with any amount of data"""
    N = e.int_any("N")
    P = NPROPS[K]
    L = e.length("L", 4 * P * N)
    blob = e.array("data", (L,), "uint8", **BYTES)
    data = e.join(ply.text(e, ply.lines_u(K), N), blob)
    r, ex = ply.read(e, api, data)
    enough = e.truth(e.and_(e.ge(N, 0), e.ge(L, 4 * P * N)))
    if not enough:
        refused(e, r, ex, api, f"{api}:refused")
        return
    e.prove(r is not None, f"{api}:accepted")
    if r is None:
        return
    e.prove(e.eq(e.len(r), N), f"{api}:count")
    _, off = e.header_of(data)
    e.forall((N, 3), lambda i, j: e.eq(e.get(r.means, i, j), e.blob_at(data, off + 4 * (P * i + j), "float32")), f"{api}:means")
    e.forall((N, 4), lambda i, j: e.eq(e.get(r.quats, i, j), e.blob_at(data, off + 4 * (P * i + P - 4 + j), "float32")), f"{api}:quats")


@scenario("C06", lambda t: [dict(K=K, api=a) for K in KS for a in ("plyread", "load", "read_compressed", "bytes")], trials=24, alarm=60)
def compressed_size(e, K, api):
    """any declared counts with any amount of data"""
    N = e.int_any("N")
    C = e.length("C", codec.chunks(N))
    S = e.length("S", N) if K else N
    L = e.length("L", 72 * C + 16 * N + 3 * K * N)
    blob = e.array("data", (L,), "uint8", **BYTES)
    data = e.join(ply.text(e, ply.lines_c(K), *((C, N, S) if K else (C, N))), blob)
    r, ex = ply.read(e, api, data)
    ok = e.truth(e.and_(e.ge(N, 0), e.eq(C, codec.chunks(N)), e.eq(S, N), e.ge(L, 72 * C + 16 * N + 3 * K * N)))
    if not ok:
        refused(e, r, ex, api, f"{api}:refused")
        return
    e.prove(r is not None, f"{api}:accepted")
    if r is None:
        return
    e.prove(e.eq(e.len(r), N), f"{api}:count")
    e.prove(r.get_sh_degree() == DEGREE[K], f"{api}:degree")


@scenario("C06", lambda t: [dict(kind=k, K=K, api=a, part=p) for k in "uc" for K in KS for a in ply.READERS for p in range(4 if K == 15 else 1)], trials=24, alarm=60)
def header(e, kind, K, api, part):
    """whatever the data, a header that does not describe the layout is refused"""
    fam = ply.broken(ply.lines_u(K) if kind == "u" else ply.lines_c(K), "quick")
    n = 4 if K == 15 else 1
    lab, lines = e.pick("header", fam[part * len(fam) // n:(part + 1) * len(fam) // n])
    N = e.dim("N")
    L = e.dim("L")
    blob = e.array("data", (L,), "uint8", **BYTES)
    nums = (N,) if kind == "u" else (codec.chunks(N), N)
    data = e.join(ply.text(e, lines, *nums), blob)
    r, ex = ply.read(e, api, data)
    refused(e, r, ex, api, f"{api}:{lab}")


@scenario("C06", lambda t: [dict(kind=k, K=K, api=a) for k in "uc" for K in ((0, 3) if t == "quick" else KS) for a in ply.READERS], trials=16, alarm=60)
def cut_header(e, kind, K, api):
    """a file that ends inside its header (every length)"""
    t = ply.text(e, ply.lines_u(K) if kind == "u" else ply.lines_c(K), 5 if kind == "u" else 1, 5)
    k = e.pick("cut", list(range(len(t))))
    r, ex = ply.read(e, api, t[:k])
    refused(e, r, ex, api, f"{api}:cut")
