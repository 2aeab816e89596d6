"""C01  saving uncompressed and loading gives back the same Gaussians."""
from vc.scn import scenario
from .common import FIELDS, mk_gs, norm_shn, raw_fields, same, snap

KS = (0, 3, 8, 15)


def cfgs(t):
    return [dict(K=K, base=b, layout=lay) for K in KS for b in (False, True) for lay in (("c", "strided") if b else ("c", "strided", "cols", "f"))]


def write(e, gs, api, p):
    if api == "save":
        gs.save(p)
    elif api == "plywrite":
        e.mod("gsply").plywrite(p, gs)
    elif api == "positional":
        e.mod("gsply").plywrite(p, gs, None, None, None, None, None, False, False)
    elif api == "write_uncompressed":
        e.mod("gsply.writer").write_uncompressed(p, gs)
    else:
        raise AssertionError(api)


def read(e, api, p):
    if api == "plyread":
        return e.mod("gsply").plyread(p)
    if api == "load":
        return e.mod("gsply.gsdata").GSData.load(p)
    return e.mod("gsply.reader").read_uncompressed(p)


def loaded(e, r, s, N, K, name):
    e.prove(r is not None, name + ":loaded")
    if r is None:
        return
    e.prove(e.eq(e.len(r), N), name + ":count")
    e.prove(r.get_sh_degree() == {0: 0, 3: 1, 8: 2, 15: 3}[K], name + ":degree")
    same(e, r, s, name, masks=False)
    e.prove(r.masks is None or len(e.shape(r.masks)) == 1, name + ":masks")


@scenario("C01", cfgs, trials=4)
def roundtrip(e, K, base, layout):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, layout)
    s = snap(e, gs)
    p, p2 = e.path("a.ply"), e.path("b.ply")
    write(e, gs, "plywrite", p)
    r = read(e, "plyread", p)
    loaded(e, r, s, N, K, "read")
    if r is None:
        return
    e.prove(all(str(e.dtype(getattr(r, f))).endswith("float32") for f in FIELDS if f != "shN" or K), "read:float32")
    write(e, r, "plywrite", p2)
    e.same_bytes(e.file_bytes(p), e.file_bytes(p2), "resave")


@scenario("C01", lambda t: [dict(K=K, base=b, w=w, r=r) for K in (KS if t == "thorough" else (0, 3)) for b in (False, True)
                            for w in ("save", "positional", "write_uncompressed") for r in ("load", "read_uncompressed")], trials=3)
def entry_points(e, K, base, w, r):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=1)
    s = snap(e, gs)
    p = e.path("sub.name.ply")
    write(e, gs, w, p)
    loaded(e, read(e, r, p), s, N, K, "read")


@scenario("C01", lambda t: [dict(K=K, dtype=d) for K in KS for d in ("float64",)], trials=4)
def other_dtypes(e, K, dtype):
    """float64 data comes back as its float32 rounding"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, False, dtype=dtype)
    s = {f: e.freeze(getattr(gs, f).astype(e.np.float32)) if f != "shN" or K else None for f in FIELDS}
    p = e.path("a.ply")
    gs.save(p)
    r = e.mod("gsply").plyread(p)
    for f in FIELDS:
        x = getattr(r, f)
        e.same_array(norm_shn(x) if f == "shN" else x, s[f], "read:" + f)


@scenario("C01", lambda t: [dict(K=K, flat=f, lay=lay) for K in KS for f in (False, True) for lay in ("c", "strided")], trials=4)
def raw_arrays(e, K, flat, lay):
    """individual arrays; log scales below zero and logits outside [0,1] so that they are recognised as PLY data"""
    if flat and not K:
        return
    N = e.dim("N")
    d = raw_fields(e, N, K, lay, ranges={"scales": (-8, "-0.01"), "opacities": (-9, "-0.01")})
    if flat:
        d["shN"] = e.array("shflat", (N, 3 * K), "float32", layout=lay)
    s = {f: e.freeze(v) if v is not None else None for f, v in d.items()}
    p = e.path("a.ply")
    e.mod("gsply").plywrite(p, d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"])
    r = e.mod("gsply").plyread(p)
    for f in FIELDS:
        x = getattr(r, f)
        if f == "shN" and flat:
            e.prove(tuple(e.shape(x))[1:] == (K, 3), "read:shN:shape")
            fx = e.freeze(x)
            e.forall((N, K, 3), lambda i, b, c: e.eq(e.get(fx, i, b, c), e.get(s["shN"], i, c * K + b)), "read:shN")
        else:
            e.same_array(norm_shn(x) if f == "shN" else x, s[f], "read:" + f)


@scenario("C01", lambda t: [dict(K=K, other=o) for K in (0, 3, 15) for o in ("bigger", "smaller", "compressed")], trials=2)
def overwrite(e, K, other):
    """saving over an existing file leaves nothing of it"""
    N, M = e.dim("N"), e.dim("M")
    old = mk_gs(e, M, 15 if other == "bigger" else 0, False, pre="old_")
    gs = mk_gs(e, N, K, False)
    s = snap(e, gs)
    p = e.path("a.ply")
    if other == "compressed":
        e.put_file("a.ply", e.text("ply\nformat binary_little_endian 1.0\nelement chunk 1\nelement vertex %d\nend_header\n", M),
                   e.array("junk", (M, 7), "uint32"))
    else:
        old.save(p)
    gs.save(p)
    loaded(e, e.mod("gsply").plyread(p), s, N, K, "read")
    q = e.path("b.ply")
    gs.save(q)
    e.same_bytes(e.file_bytes(p), e.file_bytes(q), "same file")
