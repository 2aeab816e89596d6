"""C02  the bytes of an uncompressed file are the standard 3DGS layout."""
from vc.scn import scenario
from .common import COLS, DEGREE, FIELDS, NPROPS, mk_gs, raw_fields, snap

KS = (0, 3, 8, 15)


def header(K):
    """the standard header, written down from the 3DGS format (not from the code)"""
    p = ["x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2"] + [f"f_rest_{i}" for i in range(3 * K)] + \
        ["opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3"]
    return "ply\nformat binary_little_endian 1.0\nelement vertex %d\n" + "".join(f"property float {n}\n" for n in p) + "end_header\n"


def check_file(e, data, s, N, K, name, flat=False):
    """s: snapshot of the attributes"""
    e.prove(data is not None, name + ":written")
    if data is None:
        return
    h, off = e.header_of(data)
    e.prove(h is not None and e.text_eq(h, header(K), N), name + ":header")
    P = NPROPS[K]
    e.prove(e.eq(e.nbytes(data), off + 4 * P * N), name + ":size")

    def cell(i, c):
        return e.blob_at(data, off + 4 * (P * i + c), "float32")
    for f in ("means", "sh0", "scales", "quats"):
        c0 = COLS[f](K)
        e.forall((N, 4 if f == "quats" else 3), lambda i, j: e.eq(cell(i, c0 + j), e.get(s[f], i, j)), f"{name}:{f}")
    e.forall((N,), lambda i: e.eq(cell(i, COLS["opacities"](K)), e.get(s["opacities"], i)), f"{name}:opacities")
    if K:
        # channel by channel: all red coefficients first
        if flat:
            e.forall((N, 3 * K), lambda i, c: e.eq(cell(i, 6 + c), e.get(s["shN"], i, c)), f"{name}:shN")
        else:
            e.forall((N, K, 3), lambda i, b, c: e.eq(cell(i, 6 + c * K + b), e.get(s["shN"], i, b, c)), f"{name}:shN")


@scenario("C02", lambda t: [dict(K=K, base=b, layout=lay, api=a) for K in KS for b in (False, True)
                            for lay in (("c", "strided") if b else ("c", "strided", "cols", "f"))
                            for a in (("plywrite", "save", "write_uncompressed") if t == "thorough" or lay == "c" else ("plywrite",))], trials=3)
def layout(e, K, base, layout, api):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout)
    s = snap(e, gs)
    p = e.path("a.ply")
    if api == "plywrite":
        e.mod("gsply").plywrite(p, gs)
    elif api == "save":
        gs.save(p)
    else:
        e.mod("gsply.writer").write_uncompressed(p, gs)
    check_file(e, e.file_bytes(p), s, N, K, api)


@scenario("C02", lambda t: [dict(K=K, flat=f, lay=lay, validate=v) for K in KS for f in ((False, True) if K else (False,)) for lay in ("c", "strided")
                            for v in (True, False)], trials=3)
def raw_arrays(e, K, flat, lay, validate):
    N = e.dim("N")
    d = raw_fields(e, N, K, lay, ranges={"scales": (-8, "-0.01"), "opacities": (-9, "-0.01")})
    if flat:
        d["shN"] = e.array("shflat", (N, 3 * K), "float32", layout=lay)
    s = {f: e.freeze(v) if v is not None else None for f, v in d.items()}
    p = e.path("a.ply")
    e.mod("gsply").plywrite(p, d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"], validate=validate)
    check_file(e, e.file_bytes(p), s, N, K, "arrays", flat)


@scenario("C02", lambda t: [dict(K=K, how=h) for K in KS for h in ("consolidate", "slice", "mask", "attr", "float64", "loaded", "twin", "shn0")], trials=3)
def internal_paths(e, K, how):
    """whatever the container looks like inside, its values decide the bytes"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, how in ("slice", "attr", "loaded"), dtype="float64" if how == "float64" else "float32", shn0="empty" if how == "shn0" else "none")
    if how == "consolidate":
        gs = gs.consolidate()
    elif how == "slice":
        gs = gs[1::2]
    elif how == "mask":
        gs = gs[e.array("key", (N,), "bool")]
    elif how == "attr":
        gs.scales = e.array("new_scales", (N, 3), "float32")
    elif how == "loaded":
        gs.save(e.path("first.ply"))
        gs = e.mod("gsply").plyread(e.path("first.ply"))
    elif how == "twin":
        gs = gs.make_contiguous(inplace=False).copy()
    s = snap(e, gs)
    if how == "float64":
        for f in FIELDS:
            s[f] = e.freeze(s[f].astype(e.np.float32)) if f != "shN" or K else s[f]
    n = e.len(gs)
    p = e.path("a.ply")
    gs.save(p)
    check_file(e, e.file_bytes(p), s, n, K, "file")
    d = {f: s[f] for f in FIELDS}
    if K == 0:
        d["shN"] = None
    fresh = e.mod("gsply.gsdata").GSData(**d, _format=dict(s["_format"]))
    q = e.path("b.ply")
    e.mod("gsply.writer").write_uncompressed(q, fresh)
    e.same_bytes(e.file_bytes(p), e.file_bytes(q), "same bytes")
