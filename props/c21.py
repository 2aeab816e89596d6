"""C21  Format tags and names are truthful and never shared between objects.

Each operation is checked as one step from a container in any representation: an attribute whose tag the step keeps has kept its
values, an attribute whose tag it changes has been converted accordingly, and the recorded SH degree is the one of the data.  A
truthful container therefore stays truthful through every sequence of steps."""
from vc.scn import scenario
from .c02 import header
from .c04 import mk_file
from .c14 import logit_, sig
from .codec import NMAX
from .common import C0, COLS, DEGREE, NPROPS, mk_gs, mk_key, norm_shn, raw_fields, snap

KS = (0, 3, 8, 15)
COMBOS = [(a, b, c) for a in ("ply", "linear") for b in ("ply", "linear") for c in ("sh", "rgb")]


def make(e, N, K, base, layout="c", masks=0, f=("ply", "ply", "sh"), pre="", **kw):
    return mk_gs(e, N, K, base, layout, masks, pre=pre, f=f[0], mixed=f[1], sh0=f[2], ranges=dict(scales=(-1, 20), opacities=(-2, 2)), **kw)


def converted(e, was, now, x, attr):
    """value x of an attribute, from one representation to the other"""
    if was == now:
        return x
    D = e.mod("gsply.gsdata").DataFormat
    if now == D.SCALES_PLY:
        return e.log(e.max(x, e.q("1e-9")))
    if now == D.SCALES_LINEAR:
        return e.clip(e.exp(x), e.q("0.0001"), e.q(100))
    if now == D.OPACITIES_PLY:
        return logit_(e, e.clip(x, e.q("0.0001"), 1 - e.q("0.0001")))
    if now == D.OPACITIES_LINEAR:
        return sig(e, x)
    if now == D.SH0_RGB:
        return x * e.q(C0) + e.q("0.5")
    return (x - e.q("0.5")) / e.q(C0)


def truthful(e, r, s, n, index, want, name, converted=converted):
    """row i of r is row index(i) of s, in the representation r records; want: the tags r should record"""
    D = e.mod("gsply.gsdata").DataFormat
    f = r._format
    e.prove(dict(f) == want, name + ":tags")
    bands = 0 if norm_shn(r.shN) is None else int(r.shN.shape[1])
    e.prove(f.get("sh_order") == [D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[bands]], name + ":degree")
    e.prove(r.get_sh_degree() == DEGREE[bands], name + ":degree2")
    for p in ("is_scales_ply", "is_scales_linear", "is_opacities_ply", "is_opacities_linear", "is_sh0_sh", "is_sh0_rgb", "is_sh_order_0", "is_sh_order_1",
              "is_sh_order_2", "is_sh_order_3"):
        key = "sh_order" if "order" in p else p.split("_")[1]
        e.prove(bool(getattr(r, p)) == (f[key] == D[p[3:].upper()]), f"{name}:{p}")
    for a in ("scales", "opacities", "sh0"):
        x, y = e.freeze(getattr(r, a)), s[a]
        e.prove(e.eq(e.shape(x)[0], n), f"{name}:{a}:count")
        was, now = s["_format"][a], f[a]

        def claim(i, *k):
            got, v = e.get(x, i, *k), converted(e, was, now, e.get(y, index(i), *k), a)
            return e.eq(got, v) if e.sym and was == now else e.feq(got, v)
        e.forall((n,) + tuple(e.shape(y)[1:]), claim, f"{name}:{a}")


# ---------------------------------------------------------------- one step
STEPS = {
    "copy": lambda e, g, N: (g.copy(), N, None),
    "consolidate": lambda e, g, N: (g.consolidate(), N, None),
    "make_contiguous": lambda e, g, N: (g.make_contiguous(inplace=False), N, None),
    "make_contiguous!": lambda e, g, N: (g.make_contiguous(), N, None),
    "slice": lambda e, g, N: keyed(e, g, N, "slice", "sym:sym:None"),
    "step": lambda e, g, N: keyed(e, g, N, "slice", "None:None:-2"),
    "mask": lambda e, g, N: keyed(e, g, N, "mask"),
    "index": lambda e, g, N: keyed(e, g, N, "index"),
    "copy_slice": lambda e, g, N: keyed(e, g, N, "slice", "sym:None:2", lambda g, k: g.copy_slice(k)),
    "copy_mask": lambda e, g, N: keyed(e, g, N, "mask", None, lambda g, k: g.copy_slice(k)),
    "apply_masks": lambda e, g, N: masked(e, g, False),
    "apply_masks!": lambda e, g, N: masked(e, g, True),
    "to": None,
}


def keyed(e, g, N, kind, spec=None, how=lambda g, k: g[k]):
    key, n, index = mk_key(e, kind, N, spec)
    r, ex = e.attempt(how, g, key)
    return r, n, index


def masked(e, g, inplace):
    m = e.freeze(g.combine_masks())
    nz = e.freeze(e.np.flatnonzero(m))
    return g.apply_masks(inplace=inplace), e.shape(nz)[0], lambda i: e.get(nz, i)


@scenario("C21", lambda t: [dict(op=o, K=K, base=b, f=f) for o in STEPS if o != "to" for K in (KS if t != "quick" else (0, 3)) for b in (False, True)
                            for f in (COMBOS if t != "quick" or o in ("copy", "slice") else COMBOS[::3])], trials=3)
def step(e, op, K, base, f):
    N = e.dim("N")
    gs = make(e, N, K, base, masks=2 if "masks" in op else 0, f=f)
    s = snap(e, gs)
    e.opaque()
    r, n, index = STEPS[op](e, gs, N)
    if r is None:                    # an index outside
        return
    truthful(e, r, s, n, index or (lambda i: i), s["_format"], op)
    truthful(e, gs, snap(e, gs), e.len(gs), lambda i: i, s["_format"], op + ":source")


CONVERT = {"normalize": ("linear", "linear", None), "denormalize": ("ply", "ply", None), "to_rgb": (None, None, "sh"), "to_sh": (None, None, "rgb")}


@scenario("C21", lambda t: [dict(op=o, inplace=p, K=K, base=b, layout=l, f=f) for o, w in CONVERT.items() for p in (True, False) for K in (KS if t != "quick" else (0, 3, 15))
                            for b, l in ((False, "c"), (False, "cols"), (True, "c")) for f in COMBOS if all(y in (None, x) for x, y in zip(f, w))
                            if t != "quick" or K != 15 or f[2] == "sh"], trials=3)
def convert(e, op, inplace, K, base, layout, f):
    N = e.dim("N")
    gs = make(e, N, K, base, layout, f=f)
    s = snap(e, gs)
    D = e.mod("gsply.gsdata").DataFormat
    r = getattr(gs, op)(inplace=inplace)
    want = dict(normalize=dict(scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY), denormalize=dict(scales=D.SCALES_LINEAR, opacities=D.OPACITIES_LINEAR),
                to_rgb=dict(sh0=D.SH0_RGB), to_sh=dict(sh0=D.SH0_SH))[op]
    truthful(e, r, s, N, lambda i: i, {**s["_format"], **want}, op)
    if not inplace:
        truthful(e, gs, s, N, lambda i: i, s["_format"], op + ":source")


@scenario("C21", lambda t: [dict(op=o, K=K, b1=p, b2=q, f=f) for o in ("add", "concatenate") for K in (0, 3) for p in (True, False) for q in (True, False) for f in COMBOS[::2]], trials=3)
def join(e, op, K, b1, b2, f):
    N, M = e.dim("N"), e.dim("M")
    a, b = make(e, N, K, b1, f=f), make(e, M, K, b2, f=f, pre="o_")
    s, o = snap(e, a), snap(e, b)
    r = a.add(b) if op == "add" else e.mod("gsply.gsdata").GSData.concatenate([a, b])
    e.prove(dict(r._format) == s["_format"], "tags")
    for x in ("scales", "opacities", "sh0"):
        y = e.freeze(getattr(r, x))
        e.forall((N,) + tuple(e.shape(y)[1:]), lambda i, *k: e.eq(e.get(y, i, *k), e.get(s[x], i, *k)), x + ":first")
        e.forall((M,) + tuple(e.shape(y)[1:]), lambda i, *k: e.eq(e.get(y, N + i, *k), e.get(o[x], i, *k)), x + ":second")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")
    for g, w in ((a, s), (b, o)):
        e.prove(dict(g._format) == w["_format"], "sources")


@scenario("C21", lambda t: [dict(op=o, K=K, f=f, g=g) for o in ("add", "concatenate") for K in (0,) for f in COMBOS[::3] for g in COMBOS[1::2] if f != g], trials=2)
def join_unlike(e, op, K, f, g):
    """containers in different representations cannot be joined under one tag"""
    N, M = e.dim("N"), e.dim("M")
    a, b = make(e, N, K, False, f=f), make(e, M, K, False, f=g, pre="o_")
    r, ex = e.attempt(lambda: a.add(b) if op == "add" else e.mod("gsply.gsdata").GSData.concatenate([a, b]))
    e.prove(isinstance(ex, ValueError), "refused")


# ---------------------------------------------------------------- construction and loading
@scenario("C21", lambda t: [dict(K=K, f=f, way=w, sh0=c) for K in KS for f in ("ply", "linear", "rasterizer") for w in ("from_arrays", "from_dict") for c in ("sh", "rgb")], trials=3)
def declared(e, K, f, way, sh0):
    N = e.dim("N")
    G = e.mod("gsply.gsdata")
    D = G.DataFormat
    d = raw_fields(e, N, K)
    tag = D.SH0_SH if sh0 == "sh" else D.SH0_RGB
    r = G.GSData.from_arrays(**d, format=f, sh0_format=tag) if way == "from_arrays" else G.GSData.from_dict(d, format=f, sh0_format=tag)
    s = dict(d, _format=dict(scales=D.SCALES_PLY if f == "ply" else D.SCALES_LINEAR, opacities=D.OPACITIES_PLY if f == "ply" else D.OPACITIES_LINEAR, sh0=tag))
    truthful(e, r, s, N, lambda i: i, {**s["_format"], "sh_order": [D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[K]],
                                       "means": D.MEANS_RAW, "quats": D.QUATS_RAW}, way)


@scenario("C21", lambda t: [dict(K=K, how=h) for K in KS for h in ("plain", "compressed")], trials=3)
def loaded(e, K, how):
    N = e.dim("N", hi=NMAX)
    if how == "plain":
        data = e.join(e.text(header(K), N), e.array("block", (N, NPROPS[K]), "float32"))
    else:
        data = mk_file(e, K)[0]
    r = e.mod("gsply.reader").plyread(e.put_file("a.ply", data))
    e.prove(r is not None, "loaded")
    D = e.mod("gsply.gsdata").DataFormat
    e.prove(dict(r._format) == dict(scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY, sh0=D.SH0_SH, means=D.MEANS_RAW, quats=D.QUATS_RAW,
                                    sh_order=[D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[K]]), "tags")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")


# ---------------------------------------------------------------- nothing is shared
def change(e, g, how):
    """change the format and the mask names of g"""
    D = e.mod("gsply.gsdata").DataFormat
    if how == "tags":
        for k, v in (("scales", "S"), ("opacities", "O"), ("sh0", "C"), ("sh_order", "H"), ("means", "M"), ("extra", 1)):
            g._format[k] = v
        if g.mask_names is not None:
            g.mask_names[0] = "renamed"
            g.mask_names.append("more")
    elif how == "convert":
        # rebind the arrays first: documented views may share values, never tags
        for n in ("scales", "opacities", "sh0", "quats"):
            setattr(g, n, getattr(g, n).copy())
        g.denormalize()
        g.to_rgb()
    elif how == "from":
        o = make(e, 2, 0, False, f=("linear", "linear", "rgb"), pre="z_")
        g.copy_format_from(o)
        o._format["scales"] = "later"
        e.prove(g._format["scales"] == D.SCALES_LINEAR, "copied")
    elif how == "layer":
        n = e.len(g)
        g.add_mask_layer("another", e.array("layer", (n,), "bool"))
    elif how == "remove":
        g.remove_mask_layer(g.mask_names[0])


DERIVE = dict(STEPS)
DERIVE.pop("make_contiguous!"), DERIVE.pop("apply_masks!"), DERIVE.pop("to")
DERIVE.update({
    "normalize": lambda e, g, N: (g.normalize(inplace=False), N, None),
    "denormalize": lambda e, g, N: (g.denormalize(inplace=False), N, None),
    "to_rgb": lambda e, g, N: (g.to_rgb(inplace=False), N, None),
    "to_sh": lambda e, g, N: (g.to_sh(inplace=False), N, None),
    "with_format": lambda e, g, N: (g.with_format(), N, None),
    "add": lambda e, g, N: (g.add(make(e, 3, 3, True, masks=2, pre="y_")), N + 3, None),
    "add2": lambda e, g, N: (make(e, 3, 3, False, masks=0, pre="y_").add(g), N + 3, None),
    "concatenate": lambda e, g, N: (e.mod("gsply.gsdata").GSData.concatenate([g, make(e, 3, 3, True, pre="y_")]), N + 3, None),
    "get": lambda e, g, N: (g.get_gaussian(0), 1, None),
})


@scenario("C21", lambda t: [dict(op=o, how=h, base=b, first=x, masks=m) for o in DERIVE for h in ("tags", "convert", "from", "layer", "remove") for b in (False, True)
                            for x in ("source", "result") for m in ((2,) if t == "quick" else (1, 2, 3))
                            if t != "quick" or h == "tags" or x == "result"], trials=2)
def unshared(e, op, how, base, first, masks):
    N = e.dim("N", lo=1)
    e.opaque()
    gs = make(e, N, 3, base, masks=masks)
    r, _, _ = DERIVE[op](e, gs, N)
    if r is None or r is gs:                      # consolidate of a consolidated container returns it
        return
    x, y = (gs, r) if first == "source" else (r, gs)
    if how == "remove" and x.mask_names is None:
        return
    fmt, names = dict(y._format), None if y.mask_names is None else list(y.mask_names)
    change(e, x, how)
    e.prove(dict(y._format) == fmt, "tags")
    e.prove((y.mask_names is None) == (names is None) and (names is None or list(y.mask_names) == names), "names")
    if how == "tags":
        e.prove(y._format.get("scales") != "S", "changed-alone")


@scenario("C21", [dict()], trials=4)
def callers_metadata(e):
    """the dictionary and list a container was built from, and those it hands out, stay separate"""
    N = e.dim("N")
    G = e.mod("gsply.gsdata")
    d = raw_fields(e, N, 3)
    f = G.create_ply_format(1)
    names = ["a", "b"]
    m = e.array("masks", (N, 2), "bool")
    gs = G.GSData(**d, _format=f, masks=m, mask_names=names)
    other = G.GSData(**d, _format=f, masks=m, mask_names=names)
    st = gs.format_state
    st["scales"] = "x"
    f["scales"] = "y"
    names.append("c")
    e.prove(gs._format["scales"] == G.DataFormat.SCALES_PLY and other._format["scales"] == G.DataFormat.SCALES_PLY, "tags")
    e.prove(gs.mask_names == ["a", "b"], "names")
    gs.mask_names.append("z")
    gs._format["sh0"] = "z"
    e.prove(other.mask_names == ["a", "b"] and names == ["a", "b", "c"], "names:other")
    e.prove(other._format["sh0"] == G.DataFormat.SH0_SH and f["sh0"] == G.DataFormat.SH0_SH, "tags:other")
    e.prove(G.create_ply_format(1) == {**f, "scales": G.DataFormat.SCALES_PLY}, "presets")


# ---------------------------------------------------------------- saving
def ply_of(e, s, a, i, *k):
    D = e.mod("gsply.gsdata").DataFormat
    now = dict(scales=D.SCALES_PLY, opacities=D.OPACITIES_PLY).get(a)
    x = e.get(s[a], i, *k)
    return x if now is None else converted(e, s["_format"][a], now, x, a)


@scenario("C21", lambda t: [dict(how=h, K=K, base=b, layout=l, f=f) for h in ("plywrite", "save") for K in KS for b, l in ((False, "c"), (False, "cols"), (True, "c"))
                            for f in COMBOS[::2] if t != "quick" or K in (0, 3) or b], trials=4)
def saved_plain(e, how, K, base, layout, f):
    N = e.dim("N")
    gs = make(e, N, K, base, layout, f=f)
    s = snap(e, gs)
    p = e.path("out.ply")
    e.mod("gsply.writer").plywrite(p, gs) if how == "plywrite" else gs.save(p)
    data = e.file_bytes(p)
    _, off = e.header_of(data)
    P = NPROPS[K]
    e.prove(e.eq(e.nbytes(data), off + 4 * P * N), "size")
    e.opaque()
    for a, w in (("means", (3,)), ("scales", (3,)), ("quats", (4,)), ("opacities", ()), ("sh0", (3,))):
        e.forall((N,) + w, lambda i, *k: e.feq(e.blob_at(data, off + 4 * (P * i + COLS[a](K) + (k[0] if k else 0)), "float32"), ply_of(e, s, a, i, *k)), a)


SEEN = []


@scenario("C21", lambda t: [dict(how=h, K=K, base=b, layout=l, f=f) for h in ("flag", "name", "save") for K in (0, 3) for b, l in ((False, "c"), (False, "cols"), (True, "c"))
                            for f in COMBOS[::2]], trials=4, stubs={"gsply.writer.write_compressed": lambda orig: lambda path, *a, **k: SEEN.append((a, k))})
def saved_compressed(e, how, K, base, layout, f):
    """plywrite hands the encoder (write_compressed, see C03 and C05) the PLY representation"""
    N = e.dim("N", hi=NMAX)
    gs = make(e, N, K, base, layout, f=f)
    s = snap(e, gs)
    del SEEN[:]

    def save(g, name):
        if how == "flag":
            e.mod("gsply.writer").plywrite(e.path(name + ".ply"), g, compressed=True)
        elif how == "name":
            e.mod("gsply.writer").plywrite(e.path(name + ".compressed.ply"), g)
        else:
            g.save(e.path(name + ".ply"), compressed=True)
    save(gs, "out")
    if not e.sym:
        # the same file as the container already in PLY representation
        c = gs.copy()
        c.normalize()
        D = e.mod("gsply.gsdata").DataFormat
        q = e.mod("gsply.gsdata").GSData(gs.means, gs.scales if f[0] == "ply" else c.scales, gs.quats, gs.opacities if f[1] == "ply" else c.opacities, gs.sh0, gs.shN,
                                         _format={**gs._format, "scales": D.SCALES_PLY, "opacities": D.OPACITIES_PLY})
        save(q, "same")
        x, y = (e.file_bytes(e.path(n + ".compressed.ply")) for n in ("out", "same"))
        e.same_bytes(x, y, "file")
        return
    e.prove(len(SEEN) == 1, "encoded-once")
    a, k = SEEN[0]
    got = dict(zip(("means", "scales", "quats", "opacities", "sh0", "shN"), a))
    got.update(k)
    e.opaque()
    for a, w in (("means", (3,)), ("scales", (3,)), ("quats", (4,)), ("opacities", ()), ("sh0", (3,))):
        x = e.freeze(got[a])
        e.prove(e.eq(e.shape(x)[0], N), a + ":count")
        e.forall((N,) + w, lambda i, *k: e.feq(e.get(x, i, *k), ply_of(e, s, a, i, *k)), a)
    e.same_array(norm_shn(got["shN"]), norm_shn(s["shN"]), "shN")


from . import c21t  # noqa: E402,F401  the tensor container
