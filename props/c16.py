"""C16  Saving and non-in-place operations leave the caller's data unchanged."""
from vc.scn import scenario
from .codec import NMAX
from .common import FIELDS, mk_gs, mk_key, raw_fields, same, snap

KS = (0, 3, 15)
WAYS = [(False, "c"), (False, "cols"), (True, "c"), (True, "strided")]
FORMATS = [("ply", "ply"), ("linear", "linear"), ("linear", "ply"), ("ply", "linear")]


def mine(e, N, K, base, layout, masks, f, pre=""):
    return mk_gs(e, N, K, base, layout, masks, pre=pre, f=f[0], mixed=f[1], ranges=dict(scales=(-1, 20), opacities=(-2, 2)))


class Watch:
    """the object, its arrays and everything they hold, before and after"""

    def __init__(self, e, *objs):
        self.e, self.objs = e, objs
        self.s = [snap(e, o) for o in objs]
        self.ids = [{n: getattr(o, n) for n in FIELDS + ("masks", "mask_names", "_base")} for o in objs]
        self.bases = [None if o._base is None else e.freeze(o._base) for o in objs]

    def unchanged(self, name):
        e = self.e
        for k, (o, s, i, b) in enumerate(zip(self.objs, self.s, self.ids, self.bases)):
            at = name if len(self.objs) == 1 else f"{name}{k}"
            same(e, o, s, at, shn_strict=True)
            for n, v in i.items():
                e.prove(getattr(o, n) is v, f"{at}:same {n}")
            if b is not None:
                e.same_array(o._base, b, f"{at}:matrix")


def write(e, how, gs):
    W = e.mod("gsply.writer")
    if how == "plain":
        W.plywrite(e.path("a.ply"), gs)
    elif how == "flag":
        W.plywrite(e.path("a.ply"), gs, compressed=True)
    elif how == "name":
        W.plywrite(e.path("a.ply_compressed"), gs)
    elif how == "save":
        gs.save(e.path("a.ply"))
    elif how == "save-compressed":
        gs.save(e.path("a.ply"), compressed=True)
    elif how == "bytes":
        W.compress_to_bytes(gs)
    elif how == "arrays":
        W.compress_to_arrays(gs)
    else:
        e.put_file("a.ply", b"a file where a folder is needed")
        e.attempt(lambda: W.plywrite(e.path("a.ply") + "/b.ply", gs, compressed="compressed" in how))


def states(tier, hows, formats=FORMATS, ways=WAYS):
    return [dict(how=h, K=K, base=b, layout=l, masks=m, f=f) for h in hows for K in KS for b, l in ways for m in ((0,) if K else (2,)) for f in formats
            if tier != "quick" or K != 15 or (b, f) == (True, ("linear", "ply"))]


def saved(e, how, K, base, layout, masks, f):
    N = e.dim("N", hi=NMAX)
    gs = mine(e, N, K, base, layout, masks, f)
    w = Watch(e, gs)
    write(e, how, gs)
    w.unchanged("argument")


@scenario("C16", lambda t: states(t, ("plain", "save", "nowhere")), trials=3)
def saving(e, how, K, base, layout, masks, f):
    saved(e, how, K, base, layout, masks, f)


# plywrite against the contract of write_compressed: it leaves its arguments as they are (scenario encoders)
@scenario("C16", lambda t: states(t, ("flag", "name", "save-compressed", "nowhere-compressed")), trials=3,
          stubs={"gsply.writer.write_compressed": lambda orig: lambda *a, **k: None})
def saving_compressed(e, how, K, base, layout, masks, f):
    saved(e, how, K, base, layout, masks, f)


@scenario("C16", lambda t: states(t, ("bytes", "arrays"), FORMATS[:1], WAYS if t != "quick" else WAYS[1:3]), trials=4)
def compressing(e, how, K, base, layout, masks, f):
    saved(e, how, K, base, layout, masks, f)


@scenario("C16", lambda t: [dict(how=h, K=K, layout=l) for h in ("write_compressed", "bytes", "arrays") for K in KS for l in ("c", "strided", "cols")
                            if t != "quick" or (h == "write_compressed" and (K != 3 or l == "c"))], trials=4)
def encoders(e, how, K, layout):
    N = e.dim("N", hi=NMAX)
    d = raw_fields(e, N, K, layout)
    before = {n: e.freeze(v) for n, v in d.items()}
    W = e.mod("gsply.writer")
    args = (d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"])
    if how == "write_compressed":
        W.write_compressed(e.path("a.ply_compressed"), *args)
    elif how == "bytes":
        W.compress_to_bytes(*args)
    else:
        W.compress_to_arrays(*args)
    for n, v in d.items():
        e.same_array(v, before[n], f"argument:{n}")


def split(e, how, K, layout, neg):
    """arrays passed one by one, whatever format they seem to be in"""
    N = e.dim("N", lo=1, hi=NMAX)
    d = raw_fields(e, N, K, layout, ranges=dict(scales=(-20, -1) if neg else (0, 2), opacities=(-9, -1) if neg else (0, 1)))
    before = {n: e.freeze(v) for n, v in d.items()}
    e.mod("gsply.writer").plywrite(e.path("a.ply"), d["means"], d["scales"], d["quats"], d["opacities"], d["sh0"], d["shN"], compressed=how == "flag")
    for n, v in d.items():
        e.same_array(v, before[n], f"argument:{n}")


@scenario("C16", lambda t: [dict(how="plain", K=K, layout=l, neg=n) for K in KS for l in ("c", "strided", "cols") for n in (True, False)], trials=4)
def saving_arrays(e, how, K, layout, neg):
    split(e, how, K, layout, neg)


@scenario("C16", lambda t: [dict(how="flag", K=K, layout=l, neg=n) for K in KS for l in ("c", "strided", "cols") for n in (True, False)], trials=4,
          stubs={"gsply.writer.write_compressed": lambda orig: lambda *a, **k: None})
def saving_arrays_compressed(e, how, K, layout, neg):
    split(e, how, K, layout, neg)


CONV = ("normalize", "denormalize", "to_rgb", "to_sh", "make_contiguous", "consolidate", "copy", "with_format", "activate", "deactivate", "unpack", "to_dict", "iter", "degree")


@scenario("C16", lambda t: [dict(what=w, K=K, base=b, layout=l, masks=m, f=f) for w in CONV for K in (KS if t != "quick" else (0, 3)) for b, l in WAYS
                            for m in ((0,) if K else (2,)) for f in FORMATS[:3:1 if w in ("normalize", "denormalize", "activate", "deactivate") else 2]], trials=3)
def converting(e, what, K, base, layout, masks, f):
    N = e.dim("N") if what != "iter" else 3
    gs = mine(e, N, K, base, layout, masks, f)
    w = Watch(e, gs)
    u = e.mod("gsply.utils")
    D = e.mod("gsply.gsdata").DataFormat
    if what in ("normalize", "denormalize", "to_rgb", "to_sh", "make_contiguous"):
        getattr(gs, what)(inplace=False)
    elif what in ("consolidate", "copy", "unpack", "to_dict"):
        getattr(gs, what)()
    elif what == "with_format":
        gs.with_format(scales=D.SCALES_LINEAR, sh0=D.SH0_RGB)
    elif what == "activate":
        u.apply_pre_activations(gs, inplace=False)
    elif what == "deactivate":
        u.apply_pre_deactivations(gs, inplace=False)
    elif what == "iter":
        for _ in gs:
            pass
    else:
        gs.get_sh_degree(), e.len(gs), gs.is_contiguous(), gs.format_state
    w.unchanged("argument")


KEYS = [("slice", "sym:sym:None"), ("slice", "None:None:-2"), ("mask", None), ("index", None), ("int", None), ("get", None)]


@scenario("C16", lambda t: [dict(op=o, kind=k, spec=s, K=K, base=b, layout=l, masks=m) for o in ("[]", "copy_slice") for k, s in KEYS for K in (0, 3) for b, l in WAYS
                            for m in ((0, "1d") if K else (2,)) if not (k == "get" and o == "[]")], trials=3)
def selecting(e, op, kind, spec, K, base, layout, masks):
    N = e.dim("N", lo=1 if kind in ("int", "get") else 0)
    gs = mine(e, N, K, base, layout, masks, ("ply", "ply"))
    if kind in ("int", "get"):
        key = e.integer("i", 0, None)
        e.assume(e.lt(key, N))
    else:
        key, _, _ = mk_key(e, kind, N, spec)
    fk = e.freeze(key) if kind in ("mask", "index") else None
    w = Watch(e, gs)
    r, ex = e.attempt(lambda: gs.get_gaussian(key) if kind == "get" else gs[key] if op == "[]" else gs.copy_slice(key))
    w.unchanged("argument")
    if fk is not None:
        e.same_array(key, fk, "key")


MASKOPS = [("combine", "and"), ("combine", "or"), ("apply", "and"), ("apply", "or"), ("get", None)]


@scenario("C16", lambda t: [dict(op=o, mode=m, layers=L, base=b, layout=l, some=s) for o, m in MASKOPS for L in ("1d", 1, 2, 3) for b, l in WAYS[::3] for s in (True, False)], trials=3)
def masking(e, op, mode, layers, base, layout, some):
    N = e.dim("N")
    gs = mine(e, N, 3, base, layout, layers, ("ply", "ply"))
    w = Watch(e, gs)
    sel = [gs.mask_names[0]] if some else None
    if op == "combine":
        gs.combine_masks(mode, sel)
    elif op == "apply":
        gs.apply_masks(mode, sel, inplace=False)
    else:
        gs.get_mask_layer(gs.mask_names[-1])
    w.unchanged("argument")


@scenario("C16", lambda t: [dict(op=o, K=K, b1=p, b2=q, m1=m, m2=n) for o in ("add", "+", "sum", "concatenate") for K in (0, 3) for p in (True, False) for q in (True, False)
                            for m, n in ((0, 0), (2, 2), (2, 0), (0, "1d"))], trials=3)
def joining(e, op, K, b1, b2, m1, m2):
    a = mine(e, e.dim("N"), K, b1, "c", m1, ("ply", "ply"))
    b = mine(e, e.dim("M"), K, b2, "c", m2, ("ply", "ply"), pre="o_")
    w = Watch(e, a, b)
    G = e.mod("gsply.gsdata").GSData
    if op == "add":
        a.add(b)
    elif op == "+":
        a + b
    elif op == "sum":
        sum([a, b])
    else:
        G.concatenate([a, b])
    w.unchanged("argument")


@scenario("C16", lambda t: [dict(n=n) for n in (0, 1, 2)], trials=4)
def adding_layers(e, n):
    """the array given for a layer stays as it was"""
    N = e.dim("N")
    gs = mine(e, N, 0, False, "c", n, ("ply", "ply"))
    m = e.array("layer", (N,), "bool")
    f = e.freeze(m)
    gs.add_mask_layer("extra", m)
    e.same_array(m, f, "layer")
