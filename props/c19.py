"""C19  the tensor codec agrees with the reference codec.

Both codecs are held to one specification of the file layout and of its meaning (props/codec.py, C04): the tensor encoder
must produce chunk records and packed words that satisfy the contract C05 proves of the reference encoder, and the tensor
decoder must return the values C04 proves of the reference decoder.  Readability by the other side is checked directly."""
from vc.scn import scenario
from . import c05, codec
from .c04 import check_values, mk_file
from .common import DEGREE, mk_gs, norm_shn, snap
from .tensors import mk_gt, same_t

KS = (0, 3, 8, 15)
WIDE = {"scales": (-40, 30), "opacities": (-30, 30)}
ASSUMPTIONS = ["CPU device, eager mode: torch.compile is assumed to compute the function it is given",
               "quaternions are zero or have norm at least 1e-7 (shorter ones are not normalised by the tensor encoder)",
               "a chunk whose spread is between 0 and 1e-10 is normalised by its true spread (the reference uses 1e-10)"]


def comp(e):
    return e.mod("gsply.torch.compression")


HERE = []


def any_encoder(orig):
    """what is proved of the encoder's result (chunk_records, packed_words): arrays of these shapes and types"""
    def f(means, scales, quats, opacities, sh0, shN=None):
        e = HERE[0]
        N = means.shape[0]
        K = 0 if shN is None else int(shN.shape[1])
        return (e.array("enc_bounds", (codec.chunks(N), 18), "float32"), e.array("enc_words", (N, 4), "uint32"), e.array("enc_sh", (N, 3 * K), "uint8") if K else None)
    return f


def any_decoder(orig):
    """what is proved of the decoder's result (decode): one value per vertex and attribute"""
    def f(chunk_data, vertex_data, sh_data, device="cuda"):
        e = HERE[0]
        N = vertex_data.shape[0]
        return tuple(e.array("dec_" + n, (N,) + w, "float32", torch=True) for n, w in (("means", (3,)), ("scales", (3,)), ("quats", (4,)), ("opacities", ()), ("sh0", (3,)))) \
            + (None if sh_data is None else e.array("dec_shN", (N, int(sh_data.shape[1]) // 3, 3), "float32", torch=True),)
    return f


ENC = {"gsply.torch.compression.compress_gpu": any_encoder}
DEC = {"gsply.torch.compression.decompress_gpu": any_decoder}


def gpu_range(e, m, M):
    return e.ite(e.eq(M, m), e.q(1), M - m)


def start(e, K, base, layout="c", lo=0):
    N = e.dim("N", lo=lo, hi=codec.NMAX)
    t = mk_gt(e, N, K, base, layout, ranges=WIDE)
    return N, t, snap(e, t)


def sized(e, a, N, K):
    b, w, sh = a
    e.prove(e.eq(e.shape(b)[0], codec.chunks(N)) if len(e.shape(b)) == 2 and int(e.shape(b)[1]) == 18 else False, "bounds:shape")
    e.prove(e.eq(e.shape(w)[0], N) if len(e.shape(w)) == 2 and int(e.shape(w)[1]) == 4 else False, "words:shape")
    e.prove(e.dtype(b) == "float32" and e.dtype(w) == "uint32", "dtypes")
    if K:
        e.prove(sh is not None and e.dtype(sh) == "uint8", "sh:dtype")
        e.prove(e.eq(e.shape(sh)[0], N) if int(e.shape(sh)[1]) == 3 * K else False, "sh:shape")
    else:
        e.prove(sh is None, "no-sh")


def encode(e, t):
    return comp(e).compress_gpu(t.means, t.scales, t.quats, t.opacities, t.sh0, norm_shn(t.shN))


@scenario("C19", lambda t: [dict(K=K, base=b, layout=l) for K, b, l in ((0, False, "c"), (0, True, "c"), (3, False, "strided"), (15, True, "c"))], trials=4, torch=True)
def chunk_records(e, K, base, layout):
    N, t, s = start(e, K, base, layout)
    a = encode(e, t)
    sized(e, a, N, K)
    codec.check_bounds(e, codec.Arrays(e, *a, N, K), s, "chunks")
    same_t(e, t, s, "argument")


PARTS = {"position": ("means",), "scale": ("scales",), "colour": ("color", "opacity"), "rotation": ("rotation",), "sh": ("sh",)}


@scenario("C19", lambda t: [dict(K=K, base=b, layout=l, part=p) for K, b, l in ((0, False, "c"), (3, True, "c"), (8, False, "strided"), (15, True, "c"))
                            for p in PARTS if (K or p != "sh") and (t == "thorough" or K == 0 or p == "sh" or K == 3)], trials=4, torch=True)
def packed_words(e, K, base, layout, part):
    N, t, s = start(e, K, base, layout)
    a = encode(e, t)
    sized(e, a, N, K)
    f = codec.Arrays(e, *a, N, K)
    codec.check_words(e, f, s, "words", spread=gpu_range, only=PARTS[part], shortest="1e-7")


def one_encoder(orig):
    """the encoder as a deterministic function: the same arguments give the same arrays"""
    def f(means, scales, quats, opacities, sh0, shN=None):
        e, memo = HERE
        args = dict(means=means, scales=scales, quats=quats, opacities=opacities, sh0=sh0, shN=shN)
        if not memo:
            memo.append({k: v if v is None else e.freeze(v) for k, v in args.items()})
            memo.append(any_encoder(orig)(**args))
        else:
            for k, v in args.items():
                if v is None or memo[0][k] is None:
                    e.prove(v is None and memo[0][k] is None, f"encoder-arguments:{k}")
                else:
                    e.same_array(v, memo[0][k], f"encoder-arguments:{k}")
        return memo[1]
    return f


@scenario("C19", lambda t: [dict(K=K, base=b, api=a) for K in KS for b in (False, True) for a in ("write", "plywrite", "save", "save_compressed")], trials=3, torch=True, stubs={"gsply.torch.compression.compress_gpu": one_encoder})
def files(e, K, base, api):
    """every way of saving writes the header, the chunk records, the words and the coefficients of the encoder, in that order"""
    N, t, s = start(e, K, base)
    HERE[:] = [e, []]
    b, w, sh = encode(e, t)
    p = e.path("out.compressed.ply")
    if api == "write":
        comp(e).write_compressed_gpu(p, t)
    elif api == "plywrite":
        e.mod("gsply.torch.io").plywrite_gpu(p, t)
    elif api == "save":
        t.save(p)
    else:
        t.save_compressed(p)
    data = e.file_bytes(p)
    codec.header_ok(e, data, N, K, "file")
    e.same_bytes(data, e.join(e.text(codec.header_fmt(K).replace("%s", "%d"), *codec.header_args(N, K)), b, w, *([sh] if K else [])), "file")
    same_t(e, t, s, "argument")


@scenario("C19", lambda t: [dict(K=K, base=b, reader=r) for K in KS for b in (False, True) for r in ("plyread", "from_compressed", "load", "detect", "bytes")], trials=3, torch=True, stubs={**ENC, **DEC})
def tensor_file_readable(e, K, base, reader):
    HERE[:] = [e]
    N, t, s = start(e, K, base)
    p = e.path("out.compressed.ply")
    comp(e).write_compressed_gpu(p, t)
    if reader == "detect":
        r = e.mod("gsply.formats").detect_format(p)
        e.prove(tuple(r) == (True, None), "detected")
        return
    if reader == "plyread":
        r = e.mod("gsply").plyread(p)
    elif reader == "bytes":
        r = e.mod("gsply.reader").decompress_from_bytes(e.file_bytes(p))
    elif reader == "from_compressed":
        r = e.mod("gsply.torch.gstensor").GSTensor.from_compressed(p, device="cpu")
    else:
        r = e.mod("gsply.torch.gstensor").GSTensor.load(p, device="cpu")
    e.prove(r is not None, "loaded")
    e.prove(e.eq(e.len(r), N), "count")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")


READERS = {
    "read": lambda e, p: comp(e).read_compressed_gpu(p, device="cpu"),
    "plyread": lambda e, p: e.mod("gsply.torch.io").plyread_gpu(p, device="cpu"),
    "from": lambda e, p: e.mod("gsply.torch.gstensor").GSTensor.from_compressed(p, device="cpu"),
    "load": lambda e, p: e.mod("gsply.torch.gstensor").GSTensor.load(p, device="cpu"),
}


@scenario("C19", lambda t: [dict(K=K, base=b, api=a, reader=r) for K in KS for b in (False, True) for a, r in (("plywrite", "load"), ("write_compressed", "from"), ("bytes", "read"))], trials=3, torch=True, stubs=DEC)
def reference_file_readable(e, K, base, api, reader):
    """C05 proves that the reference encoders emit a file of this form"""
    HERE[:] = [e]
    if e.sym:
        data, N = mk_file(e, K)[:2]
    else:
        N = e.dim("N", hi=codec.NMAX)
        data = c05.encode(e, mk_gs(e, N, K, base, ranges=WIDE), api)
    p = e.put_file("in.compressed.ply", data)
    r = READERS[reader](e, p)
    e.prove(e.eq(e.len(r), N), "count")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")


@scenario("C19", lambda t: [dict(K=K, head=h) for K in KS for h in ("own", "comment") if t == "thorough" or h == "own" or K == 3], trials=8, torch=True)
def decode(e, K, head):
    data, N, b, w, sh = mk_file(e, K, head)
    r = READERS["read"](e, e.put_file("in.ply_compressed", data))
    check_values(e, r, N, K, e.freeze(b), e.freeze(w), e.freeze(sh), "tensor", "sigmoid")
    D = e.mod("gsply.gsdata").DataFormat
    e.prove(dict(r._format) == dict(scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY, sh0=D.SH0_SH, means=D.MEANS_RAW, quats=D.QUATS_RAW,
                                    sh_order=[D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[K]]), "format")


@scenario("C19", lambda t: [dict(K=K) for K in (3, 8, 15)], trials=6, torch=True)
def same_coefficients(e, K):
    """every coefficient byte means the same to both decoders"""
    data, N, b, w, sh = mk_file(e, K)
    r = READERS["read"](e, e.put_file("in.ply_compressed", data))
    c = e.mod("gsply.reader").decompress_from_bytes(data)
    x, y = e.freeze(r.shN), e.freeze(c.shN)
    e.forall((N, K, 3), lambda i, j, k: e.near(e.get(x, i, j, k), e.get(y, i, j, k), e.q("0.000001")), "sh")


@scenario("C19", lambda t: [dict(K=K, reader=r, name=n) for K in KS for r, n in (("plyread", "in.ply_compressed"), ("from", "in.ply_compressed"), ("load", "in.ply_compressed"), ("load", "in.compressed.ply"))], trials=4, torch=True)
def same_result(e, K, reader, name):
    """every entry point returns what the decoder returns"""
    data, N, b, w, sh = mk_file(e, K)
    e.pure("gsply.torch.compression", "decompress_gpu")
    p = e.put_file(name, data)
    s = snap(e, READERS["read"](e, p))
    same_t(e, READERS[reader](e, p), s, reader)
