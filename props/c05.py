"""C05  all compressed encoders emit the same well-formed file."""
from vc.scn import scenario
from . import codec
from .common import mk_gs, raw_fields, snap

KS = (0, 3, 8, 15)
WIDE = {"scales": (-40, 30), "opacities": (-30, 30)}


def encode(e, gs, api, p="out"):
    """-> bytes of the compressed file"""
    g = e.mod("gsply")
    w = e.mod("gsply.writer")
    if api == "bytes":
        return w.compress_to_bytes(gs)
    if api == "arrays":
        parts = w.compress_to_arrays(gs)
        return e.join(*[x for x in parts if x is not None])
    if api == "bytes-raw":
        return w.compress_to_bytes(gs.means, gs.scales, gs.quats, gs.opacities, gs.sh0, gs.shN)
    if api == "arrays-raw":
        parts = w.compress_to_arrays(gs.means, gs.scales, gs.quats, gs.opacities, gs.sh0, gs.shN)
        return e.join(*[x for x in parts if x is not None])
    if api == "plywrite":
        g.plywrite(e.path(p + ".ply"), gs, compressed=True)
        return e.file_bytes(e.path(p + ".compressed.ply"))
    if api == "extension":
        g.plywrite(e.path(p + ".ply_compressed"), gs)
        return e.file_bytes(e.path(p + ".ply_compressed"))
    if api == "extension2":
        g.plywrite(e.path(p + ".x.compressed.ply"), gs, compressed=True)
        return e.file_bytes(e.path(p + ".x.compressed.ply"))
    if api == "save":
        gs.save(e.path(p + ".splat"), compressed=True)
        return e.file_bytes(e.path(p + ".splat.compressed.ply"))
    if api == "write_compressed":
        w.write_compressed(e.path(p + ".any"), gs.means, gs.scales, gs.quats, gs.opacities, gs.sh0, gs.shN)
        return e.file_bytes(e.path(p + ".any"))
    raise AssertionError(api)


APIS = ["bytes", "arrays", "bytes-raw", "arrays-raw", "plywrite", "extension", "extension2", "save", "write_compressed"]


@scenario("C05", lambda t: [dict(K=K, base=b, layout="c") for K in KS for b in (False, True)], trials=4)
def sections(e, K, base, layout):
    """header and section sizes"""
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, layout, ranges=WIDE)
    data = encode(e, gs, "bytes")
    off = codec.header_ok(e, data, N, K, "file")
    f = codec.File(e, data, N, K, off)
    e.prove(e.eq(e.nbytes(data), f.size()), "file:size")


@scenario("C05", lambda t: [dict(K=K, base=b, layout=l) for K, b, l in ((0, False, "c"), (0, True, "c"), (0, False, "strided"), (3, True, "c"))], trials=4)
def chunk_records(e, K, base, layout):
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, layout, ranges=WIDE)
    s = snap(e, gs)
    data = encode(e, gs, "bytes")
    off = codec.header_ok(e, data, N, K, "file")
    codec.check_bounds(e, codec.File(e, data, N, K, off), s, "chunks")


@scenario("C05", lambda t: [dict(K=K, base=b, layout=l) for K, b, l in ((0, False, "c"), (3, True, "c"), (8, False, "c"), (15, False, "c"))], trials=4)
def packed_words(e, K, base, layout):
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, layout, ranges=WIDE)
    s = snap(e, gs)
    data = encode(e, gs, "bytes")
    off = codec.header_ok(e, data, N, K, "file")
    codec.check_words(e, codec.File(e, data, N, K, off), s, "words")


@scenario("C05", lambda t: [dict(K=K, base=b) for K, b in ((0, False), (3, True))] + ([dict(K=K, base=b) for K, b in ((8, True), (15, False))] if t == "thorough" else []), trials=6)
def same_file(e, K, base):
    """every encoder produces the same bytes"""
    N = e.dim("N", hi=codec.NMAX)
    gs = mk_gs(e, N, K, base, ranges=WIDE)
    e.pure("gsply.writer", "_compress_data_internal")
    first = encode(e, gs, APIS[0])
    for api in APIS[1:]:
        e.same_bytes(encode(e, gs, api), first, api)
