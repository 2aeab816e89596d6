"""C21 for the tensor container: the same one-step claims, and what saving a tensor container stores."""
from vc.scn import scenario
from .c14 import sig
from .c21 import COMBOS, KS, ply_of, truthful
from .c21 import converted as converted_np
from .codec import NMAX
from .common import C0, COLS, DEGREE, NPROPS, mk_gs, mk_key, norm_shn, raw_fields, snap
from .tensors import mk_gt

RANGES = dict(scales=(-1, 20), opacities=(-2, 2))


def GT(e):
    return e.mod("gsply.torch.gstensor").GSTensor


def make_t(e, N, K, base, layout="c", masks=0, f=("ply", "ply", "sh"), pre=""):
    return mk_gt(e, N, K, base, layout, masks, pre, f[0], f[1], f[2], ranges=RANGES)


def converted(e, was, now, x, attr):
    """the tensor container's denormalize has no upper or lower limit on scales"""
    D = e.mod("gsply.gsdata").DataFormat
    if was != now and now == D.SCALES_LINEAR:
        return e.exp(x)
    return converted_np(e, was, now, x, attr)


def keyed(e, t, N, kind, spec=None, how=lambda t, k: t[k]):
    key, n, index = mk_key(e, kind, N, spec)
    r, ex = e.attempt(how, t, key)
    return r, n, index


def masked(e, t, inplace):
    m = e.freeze(t.combine_masks())
    nz = e.freeze(e.np.flatnonzero(m))
    return t.apply_masks(inplace=inplace), e.shape(nz)[0], lambda i: e.get(nz, i)


STEPS = {
    "clone": lambda e, t, N: (t.clone(), N, None),
    "consolidate": lambda e, t, N: (t.consolidate(), N, None),
    "slice": lambda e, t, N: keyed(e, t, N, "slice", "sym:sym:None"),
    "step": lambda e, t, N: keyed(e, t, N, "slice", "None:None:2"),
    "mask": lambda e, t, N: keyed(e, t, N, "mask"),
    "index": lambda e, t, N: keyed(e, t, N, "index"),
    "get": lambda e, t, N: (t.get_gaussian(0), 1, None),
    "apply_masks": lambda e, t, N: masked(e, t, False),
    "apply_masks!": lambda e, t, N: masked(e, t, True),
    "double": lambda e, t, N: (t.double(), N, None),
    "to": lambda e, t, N: (t.to("cpu", e.torch.float64), N, None),
    "to_gsdata": lambda e, t, N: (t.to_gsdata(), N, None),
    "round_trip": lambda e, t, N: (GT(e).from_gsdata(t.to_gsdata(), device="cpu"), N, None),
}


@scenario("C21", lambda t: [dict(op=o, K=K, base=b, f=f) for o in STEPS for K in (KS if t != "quick" else (0, 3)) for b in (False, True)
                            for f in (COMBOS if t != "quick" or o in ("clone", "to_gsdata") else COMBOS[::3])], trials=3, torch=True)
def tensor_step(e, op, K, base, f):
    N = e.dim("N", lo=1 if op == "get" else 0)
    t = make_t(e, N, K, base, masks=2 if "masks" in op else 0, f=f)
    s = snap(e, t)
    e.opaque()
    r, n, index = STEPS[op](e, t, N)
    if r is None:                    # an index outside
        return
    truthful(e, r, s, n, index or (lambda i: i), s["_format"], op, converted)
    truthful(e, t, snap(e, t), e.len(t), lambda i: i, s["_format"], op + ":source", converted)


@scenario("C21", lambda t: [dict(K=K, base=b, f=f) for K in KS for b in (False, True) for f in COMBOS if t != "quick" or K in (0, 3)], trials=3, torch=True)
def tensor_from_container(e, K, base, f):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, f=f[0], mixed=f[1], sh0=f[2], ranges=RANGES)
    s = snap(e, gs)
    r = GT(e).from_gsdata(gs, device="cpu")
    truthful(e, r, s, N, lambda i: i, s["_format"], "tensor", converted)


CONVERT = {"normalize": ("linear", "linear", None), "denormalize": ("ply", "ply", None), "to_rgb": (None, None, "sh"), "to_sh": (None, None, "rgb")}


@scenario("C21", lambda t: [dict(op=o, inplace=p, K=K, base=b, layout=l, f=f) for o, w in CONVERT.items() for p in (True, False) for K in (KS if t != "quick" else (0, 3, 15))
                            for b, l in ((False, "c"), (False, "cols"), (True, "c")) for f in COMBOS if all(y in (None, x) for x, y in zip(f, w))
                            if t != "quick" or K != 15 or f[2] == "sh"], trials=3, torch=True)
def tensor_convert(e, op, inplace, K, base, layout, f):
    N = e.dim("N")
    t = make_t(e, N, K, base, layout, f=f)
    s = snap(e, t)
    D = e.mod("gsply.gsdata").DataFormat
    r = getattr(t, op)(inplace=inplace)
    want = dict(normalize=dict(scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY), denormalize=dict(scales=D.SCALES_LINEAR, opacities=D.OPACITIES_LINEAR),
                to_rgb=dict(sh0=D.SH0_RGB), to_sh=dict(sh0=D.SH0_SH))[op]
    truthful(e, r, s, N, lambda i: i, {**s["_format"], **want}, op, converted)
    if not inplace:
        truthful(e, t, s, N, lambda i: i, s["_format"], op + ":source", converted)


@scenario("C21", lambda t: [dict(K=K, b1=p, b2=q, f=f) for K in (0, 3) for p in (True, False) for q in (True, False) for f in COMBOS[::2]], trials=3, torch=True)
def tensor_join(e, K, b1, b2, f):
    N, M = e.dim("N"), e.dim("M")
    a, b = make_t(e, N, K, b1, f=f), make_t(e, M, K, b2, f=f, pre="o_")
    s, o = snap(e, a), snap(e, b)
    r = a.add(b)
    e.prove(dict(r._format) == s["_format"], "tags")
    for x in ("scales", "opacities", "sh0"):
        y = e.freeze(getattr(r, x))
        e.forall((N,) + tuple(e.shape(y)[1:]), lambda i, *k: e.eq(e.get(y, i, *k), e.get(s[x], i, *k)), x + ":first")
        e.forall((M,) + tuple(e.shape(y)[1:]), lambda i, *k: e.eq(e.get(y, N + i, *k), e.get(o[x], i, *k)), x + ":second")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")
    for g, w in ((a, s), (b, o)):
        e.prove(dict(g._format) == w["_format"], "sources")


@scenario("C21", lambda t: [dict(f=f, g=g, b=b) for f in COMBOS[::3] for g in COMBOS[1::2] if f != g for b in (False, True)], trials=2, torch=True)
def tensor_join_unlike(e, f, g, b):
    N, M = e.dim("N"), e.dim("M")
    x, y = make_t(e, N, 0, b, f=f), make_t(e, M, 0, b, f=g, pre="o_")
    r, ex = e.attempt(lambda: x.add(y))
    e.prove(isinstance(ex, ValueError), "refused")


@scenario("C21", lambda t: [dict(K=K, f=f, way=w, sh0=c) for K in KS for f in ("ply", "linear", "rasterizer") for w in ("from_arrays", "from_dict") for c in ("sh", "rgb")], trials=3, torch=True)
def tensor_declared(e, K, f, way, sh0):
    N = e.dim("N")
    D = e.mod("gsply.gsdata").DataFormat
    d = raw_fields(e, N, K, torch=True)
    tag = D.SH0_SH if sh0 == "sh" else D.SH0_RGB
    r = GT(e).from_arrays(**d, format=f, sh0_format=tag) if way == "from_arrays" else GT(e).from_dict(d, format=f, sh0_format=tag, device="cpu")
    s = {k: v if v is None else e.freeze(v) for k, v in d.items()}
    s["_format"] = dict(scales=D.SCALES_PLY if f == "ply" else D.SCALES_LINEAR, opacities=D.OPACITIES_PLY if f == "ply" else D.OPACITIES_LINEAR, sh0=tag)
    truthful(e, r, s, N, lambda i: i, {**s["_format"], "sh_order": [D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[K]],
                                       "means": D.MEANS_RAW, "quats": D.QUATS_RAW}, way, converted)


# ---------------------------------------------------------------- nothing is shared
def change(e, g, how):
    D = e.mod("gsply.gsdata").DataFormat
    tensor = isinstance(g, GT(e))
    if how == "tags":
        for k, v in (("scales", "S"), ("opacities", "O"), ("sh0", "C"), ("sh_order", "H"), ("means", "M"), ("extra", 1)):
            g._format[k] = v
        if g.mask_names is not None:
            g.mask_names[0] = "renamed"
            g.mask_names.append("more")
    elif how == "convert":
        for n in ("scales", "opacities", "sh0", "quats"):
            setattr(g, n, getattr(g, n).clone() if tensor else getattr(g, n).copy())
        g.denormalize()
        g.to_rgb()
    elif how == "from":
        o = make_t(e, 2, 0, False, f=("linear", "linear", "rgb"), pre="z_")
        g.copy_format_from(o)
        o._format["scales"] = "later"
        e.prove(g._format["scales"] == D.SCALES_LINEAR, "copied")
    elif how == "layer":
        n = e.len(g)
        g.add_mask_layer("another", e.array("layer", (n,), "bool", torch=tensor))
    elif how == "remove":
        g.remove_mask_layer(g.mask_names[0])


DERIVE = {k: v for k, v in STEPS.items() if k != "apply_masks!"}
DERIVE.update({
    "normalize": lambda e, g, N: (g.normalize(inplace=False), N, None),
    "denormalize": lambda e, g, N: (g.denormalize(inplace=False), N, None),
    "to_rgb": lambda e, g, N: (g.to_rgb(inplace=False), N, None),
    "to_sh": lambda e, g, N: (g.to_sh(inplace=False), N, None),
    "with_format": lambda e, g, N: (g.with_format(), N, None),
    "add": lambda e, g, N: (g.add(make_t(e, 3, 3, True, masks=2, pre="y_")), N + 3, None),
    "add2": lambda e, g, N: (make_t(e, 3, 3, False, masks=0, pre="y_").add(g), N + 3, None),
    "to_ply_tensor": lambda e, g, N: (g.to_ply_tensor(), N, None),
    "to_ply_data": lambda e, g, N: (g.to_ply_data(), N, None),
})


@scenario("C21", lambda t: [dict(op=o, how=h, base=b, first=x, masks=m) for o in DERIVE for h in ("tags", "convert", "from", "layer", "remove") for b in (False, True)
                            for x in ("source", "result") for m in ((2,) if t == "quick" else (1, 2, 3))
                            if t != "quick" or h == "tags" or x == "result"], trials=2, torch=True)
def tensor_unshared(e, op, how, base, first, masks):
    N = e.dim("N", lo=1)
    e.opaque()
    t = make_t(e, N, 3, base, masks=masks)
    r, _, _ = DERIVE[op](e, t, N)
    if r is None or r is t:                      # consolidate of a consolidated container returns it
        return
    x, y = (t, r) if first == "source" else (r, t)
    if how == "remove" and x.mask_names is None:
        return
    fmt, names = dict(y._format), None if y.mask_names is None else list(y.mask_names)
    change(e, x, how)
    e.prove(dict(y._format) == fmt, "tags")
    e.prove((y.mask_names is None) == (names is None) and (names is None or list(y.mask_names) == names), "names")


@scenario("C21", lambda t: [dict(how=h, base=b, first=x) for h in ("tags", "convert", "from", "layer", "remove") for b in (False, True) for x in ("source", "result")], trials=2, torch=True)
def tensor_unshared_source(e, how, base, first):
    """a container and the tensor container made from it"""
    N = e.dim("N", lo=1)
    e.opaque()
    gs = mk_gs(e, N, 3, base, masks=2)
    t = GT(e).from_gsdata(gs, device="cpu")
    x, y = (gs, t) if first == "source" else (t, gs)
    fmt, names = dict(y._format), list(y.mask_names)
    change(e, x, how)
    e.prove(dict(y._format) == fmt, "tags")
    e.prove(list(y.mask_names) == names, "names")


# ---------------------------------------------------------------- saving
@scenario("C21", lambda t: [dict(how=h, K=K, base=b, layout=l, f=f) for h in ("save", "plywrite") for K in KS for b, l in ((False, "c"), (False, "cols"), (True, "c"))
                            for f in COMBOS[::2] if t != "quick" or K in (0, 3) or b], trials=4, torch=True)
def tensor_saved_plain(e, how, K, base, layout, f):
    N = e.dim("N")
    t = make_t(e, N, K, base, layout, f=f)
    s = snap(e, t)
    p = e.path("out.ply")
    e.mod("gsply.writer").plywrite(p, t) if how == "plywrite" else t.save(p, compressed=False)
    data = e.file_bytes(p)
    _, off = e.header_of(data)
    P = NPROPS[K]
    e.prove(e.eq(e.nbytes(data), off + 4 * P * N), "size")
    e.opaque()
    for a, w in (("means", (3,)), ("scales", (3,)), ("quats", (4,)), ("opacities", ()), ("sh0", (3,))):
        e.forall((N,) + w, lambda i, *k: e.feq(e.blob_at(data, off + 4 * (P * i + COLS[a](K) + (k[0] if k else 0)), "float32"), ply_of(e, s, a, i, *k)), a)
    truthful(e, t, s, N, lambda i: i, s["_format"], "source", converted)


SEEN = []


@scenario("C21", lambda t: [dict(how=h, K=K, base=b, layout=l, f=f) for h in ("save", "save_compressed", "plywrite_gpu") for K in (0, 3) for b, l in ((False, "c"), (False, "cols"), (True, "c"))
                            for f in COMBOS[::2]], trials=4, torch=True, stubs={"gsply.torch.io.write_compressed_gpu": lambda orig: lambda path, t: SEEN.append(t)})
def tensor_saved_compressed(e, how, K, base, layout, f):
    """every way of saving hands the tensor encoder (write_compressed_gpu, see C19) the PLY representation"""
    N = e.dim("N", hi=NMAX)
    t = make_t(e, N, K, base, layout, f=f)
    s = snap(e, t)
    del SEEN[:]

    def save(g, name):
        p = e.path(name)
        if how == "save":
            g.save(p)
        elif how == "save_compressed":
            g.save_compressed(p)
        else:
            e.mod("gsply.torch.io").plywrite_gpu(p, g)
    save(t, "out.compressed.ply")
    truthful(e, t, s, N, lambda i: i, s["_format"], "source", converted)
    if not e.sym:
        # the same file as the container already in PLY representation
        c = t.normalize(inplace=False)
        D = e.mod("gsply.gsdata").DataFormat
        q = GT(e)(t.means, t.scales if f[0] == "ply" else c.scales, t.quats, t.opacities if f[1] == "ply" else c.opacities, t.sh0, t.shN,
                  _format={**t._format, "scales": D.SCALES_PLY, "opacities": D.OPACITIES_PLY})
        e.mod("gsply.torch.compression").write_compressed_gpu(e.path("same"), q)
        e.same_bytes(e.file_bytes(e.path("out.compressed.ply")), e.file_bytes(e.path("same")), "file")
        return
    e.prove(len(SEEN) == 1, "encoded-once")
    got = SEEN[0]
    e.opaque()
    for a, w in (("means", (3,)), ("scales", (3,)), ("quats", (4,)), ("opacities", ()), ("sh0", (3,))):
        x = e.freeze(getattr(got, a))
        e.prove(e.eq(e.shape(x)[0], N), a + ":count")
        e.forall((N,) + w, lambda i, *k: e.feq(e.get(x, i, *k), ply_of(e, s, a, i, *k)), a)
    e.same_array(norm_shn(got.shN), norm_shn(s["shN"]), "shN")
