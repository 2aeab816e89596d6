"""C07  format detection is total, terminates, and agrees with what the reader does."""
from vc.scn import scenario
from . import codec, ply
from .common import DEGREE, mk_gs, norm_shn, same, snap

KS = (0, 3, 8, 15)
BYTES = dict(lo=0, hi=60)


def detect(e, p, name, want):
    """detection never raises; want: the allowed answers"""
    r, ex = e.attempt(e.mod("gsply").detect_format, p)
    e.prove(ex is None, name + ":total")
    e.prove(isinstance(r, tuple) and any(r[0] is a and (r[1] is b or r[1] == b) for a, b in want), name + ":answer")
    return r


UNKNOWN = [(False, None)]
COMPRESSED = [(True, None)]


def plain(K):
    return [(False, DEGREE[K])]


@scenario("C07", lambda t: [dict(K=K, base=b, api=a) for K in KS for b in (False, True) for a in ("save", "plywrite")], trials=3)
def written_plain(e, K, base, api):
    """an uncompressed file is detected as one of its degree, and read by the uncompressed decoder"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, base)
    p = e.path("a.ply")
    if api == "save":
        gs.save(p)
    else:
        e.mod("gsply").plywrite(p, gs)
    detect(e, p, "written", plain(K))
    detect(e, str(p), "written:str", plain(K))
    r = e.mod("gsply").plyread(p)
    q = e.mod("gsply.reader").read_uncompressed(p)
    e.prove(q is not None, "reader")
    if q is not None:
        same(e, r, snap(e, q), "reader")
        e.prove((r._base is None) == (q._base is None), "reader:zero-copy")
    z, _ = e.attempt(e.mod("gsply.reader").read_compressed, p)
    e.prove(z is None, "other-decoder:refuses")


@scenario("C07", lambda t: [dict(K=K, api=a) for K in KS for a in ("save", "plywrite", "bytes", "suffix")], trials=3)
def written_compressed(e, K, api):
    """a compressed file is detected as such, and read by the compressed decoder"""
    N = e.dim("N", hi=codec.NMAX)
    rg = {"means": (-50, 50), "scales": (-9, 4), "opacities": (-9, 9), "sh0": (-2, 2), "shN": (-3, 3), "quats": (-1, 1)}
    gs = mk_gs(e, N, K, False, ranges=rg)
    p = e.path("a.compressed.ply")
    if api == "save":
        gs.save(p, compressed=True)
    elif api == "plywrite":
        e.mod("gsply").plywrite(p, gs, compressed=True)
    elif api == "suffix":
        e.mod("gsply").plywrite(e.path("a.ply"), gs, compressed=True)
    else:
        p = e.put_file("b.bin", e.mod("gsply").compress_to_bytes(gs))
    detect(e, p, "written", COMPRESSED)
    data = e.file_bytes(p)
    h, off = e.header_of(data)
    e.prove(e.eq(e.nbytes(data), off + 72 * codec.chunks(N) + 16 * N + 3 * K * N), "written:length")
    # the decoding of any file with this header and length
    p = e.put_file("any.ply", codec.havoc(e, codec.File(e, data, N, K, off), h)[0])
    e.pure("gsply.reader", "_unpack_all_jit")
    if K:
        e.pure("gsply.reader", "_unpack_sh_jit")
    r = e.mod("gsply").plyread(p)
    q = e.mod("gsply.reader").read_compressed(p)
    e.prove(q is not None, "reader")
    if q is not None:
        same(e, r, snap(e, q), "reader")
        e.prove(e.eq(e.len(r), N), "reader:count")
    z, _ = e.attempt(e.mod("gsply.reader").read_uncompressed, p)
    e.prove(z is None, "other-decoder:refuses")


# a broken header can still have exactly a degree's vertex properties, or be the compressed layout in another encoding
VERTEX_OK = ("ascii", "big-endian", "no-format", "format-garbage", "element0-preceded", "element0-preceded-empty")


@scenario("C07", lambda t: [dict(kind=k, K=K, part=p) for k in "uc" for K in KS for p in range(4 if K == 15 else 1)], trials=40, alarm=60)
def mutated(e, kind, K, part):
    """headers that do not describe a layout are reported as unknown"""
    fam = ply.broken(ply.lines_u(K) if kind == "u" else ply.lines_c(K), "quick")
    n = 4 if K == 15 else 1
    lab, lines = e.pick("header", fam[part * len(fam) // n:(part + 1) * len(fam) // n])
    N = e.dim("N")
    L = e.dim("L")
    blob = e.array("data", (L,), "uint8", **BYTES)
    nums = (N,) if kind == "u" else (codec.chunks(N), N)
    p = e.put_file("in.ply", e.join(ply.text(e, lines, *nums), blob))
    want = list(UNKNOWN)
    if kind == "u" and lab in VERTEX_OK:
        want += plain(K)
    if kind == "c" and lab in VERTEX_OK[:4]:
        want += COMPRESSED
    detect(e, p, lab, want)


@scenario("C07", lambda t: [dict(K=K) for K in KS], trials=20, alarm=60)
def counts(e, K):
    """whatever counts are declared and however much data follows"""
    N = e.int_any("N")
    C = e.length("C", codec.chunks(N))
    S = e.length("S", N) if K else N
    L = e.dim("L")
    blob = e.array("data", (L,), "uint8", **BYTES)
    p = e.put_file("c.ply", e.join(ply.text(e, ply.lines_c(K), *((C, N, S) if K else (C, N))), blob))
    ok = e.truth(e.and_(e.ge(N, 0), e.eq(C, codec.chunks(N)), e.eq(S, N)))
    detect(e, p, "compressed", COMPRESSED if ok else UNKNOWN)
    p = e.put_file("u.ply", e.join(ply.text(e, ply.lines_u(K), N), blob))
    detect(e, p, "plain", plain(K))


LINES = ["element vertex 5\n", "element chunk 1\n", "element vertex\n", "element\n", "element vertex x\n", "element camera -1\n", "property float x\n",
         "property float\n", "property\n", "property list uchar int vertex_index\n", "end_header\n", "end_header ", "\n", "   \r\n", "comment x\n",
         "format binary_little_endian 1.0\n", "obj_info", "\udcff\udcfe\n", "ply\n"]


@scenario("C07", lambda t: [dict(first=k) for k in range(len(LINES))], trials=12, alarm=120)
def any_lines(e, first):
    """every sequence of up to three header lines, with or without an end"""
    a = e.pick("a", range(len(LINES) + 1))
    b = e.pick("b", range(len(LINES) + 1)) if a < len(LINES) else len(LINES)
    end = e.pick("end", ("", "end_header\n"))
    text = "".join((LINES + [""])[k] for k in (first, a, b)) + end
    p = e.put_file("in.ply", ("ply\n" + text).encode("ascii", "surrogateescape"))
    detect(e, p, "lines", UNKNOWN)
    for api in ("plyread", "read_compressed"):
        r, ex = ply.read(e, api, e.file_bytes(p))
        e.prove(r is None, f"{api}:refused")


@scenario("C07", trials=8)
def not_a_ply(e):
    """missing, empty and foreign files, directories, unusable names"""
    what = e.pick("what", ("missing", "empty", "ply", "ply\r", "PLY", "solid", "binary", "spaces", "dir", "long", "nul", "in-file", "in-missing"))
    data = {"empty": b"", "ply": b"ply", "ply\r": b"ply\r\n", "PLY": b"PLY\nend_header\n", "solid": b"solid x\nfacet\n", "binary": bytes(range(256)),
            "spaces": b"  ply  \n  end_header  \n", "in-file": b"ply\nend_header\n"}
    if what in data:
        p = e.put_file("x.ply", data[what])
        if what == "in-file":
            p = f"{p}/y.ply"
    elif what == "dir":
        p = str(e.path("x.ply")).rsplit("/", 1)[0]
    elif what == "long":
        p = str(e.path("x" * 5000))
    elif what == "nul":
        p = str(e.path("a.ply")) + "\0"
    elif what == "in-missing":
        p = str(e.path("x.ply")) + "/z/y.ply"
    else:
        p = e.path("nothere.ply")
    detect(e, p, what, UNKNOWN)
    for api in ("plyread", "read_uncompressed", "read_compressed"):
        fn = e.mod("gsply").plyread if api == "plyread" else getattr(e.mod("gsply.reader"), api)
        r, ex = e.attempt(fn, p)
        e.prove(r is None, f"{what}:{api}")


@scenario("C07", sym=False, trials=300)
def arbitrary_bytes(e):
    """random contents, and valid headers with random damage"""
    import random
    rnd = random.Random(e.integer("seed", 0, 2 ** 30))
    mode = rnd.randrange(3)
    if mode == 0:
        data = bytes(rnd.randrange(256) for _ in range(rnd.randrange(400)))
    else:
        t = bytearray(("\n".join(ply.lines_u(3) if mode == 1 else ply.lines_c(3)) + "\n").replace("%d", "3").encode())
        for _ in range(rnd.randrange(1, 4)):
            k = rnd.randrange(len(t))
            op = rnd.randrange(3)
            if op == 0:
                t[k] = rnd.randrange(256)
            elif op == 1:
                del t[k:k + rnd.randrange(1, 30)]
            else:
                t[k:k] = bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 5)))
        data = bytes(t) + bytes(400)
    p = e.put_file("x.ply", data)
    r, ex = e.attempt(e.mod("gsply").detect_format, p)
    e.prove(ex is None and isinstance(r, tuple), "total")
