"""C17  Moving between NumPy and tensor form loses nothing."""
from vc.scn import scenario
from .common import DEGREE, FIELDS, NPROPS, mk_gs, mk_key, norm_shn, raw_fields, rows, same, snap
from .c02 import check_file
from .tensors import mk_gt, rows_t, same_t

KS = (0, 3, 8, 15)
LAYOUTS = [(False, "c"), (False, "strided"), (False, "cols"), (False, "f"), (True, "c"), (True, "strided")]
FORMS = [("ply", "ply", "sh"), ("linear", "linear", "rgb"), ("linear", "ply", "sh"), ("ply", "linear", "rgb")]


def cases(t):
    return [dict(K=K, base=b, layout=l, masks=m, f=f) for K in KS for b, l in LAYOUTS for m, f in zip((0, 2, "1d", 1), FORMS)
            if t == "thorough" or K in (0, 15) or m == 2]


def gst(e):
    return e.mod("gsply.torch.gstensor").GSTensor


def mk(e, N, K, base, layout, masks, f, pre=""):
    return mk_gs(e, N, K, base, layout, masks, f=f[0], mixed=f[1], sh0=f[2], pre=pre)


@scenario("C17", cases, trials=4, torch=True)
def there_and_back(e, K, base, layout, masks, f):
    N = e.dim("N")
    gs = mk(e, N, K, base, layout, masks, f)
    s = snap(e, gs)
    t = gst(e).from_gsdata(gs, device="cpu")
    same_t(e, t, s, "tensor")
    e.prove(t.get_sh_degree() == DEGREE[K], "degree")
    e.prove(e.eq(e.len(t), N), "count")
    b = t.to_gsdata()
    same(e, b, s, "back")
    e.prove(b.get_sh_degree() == DEGREE[K], "degree-back")
    same(e, gs, s, "source")


@scenario("C17", lambda t: [dict(K=K, base=b, masks=m, f=f, layout=l) for K in KS for b, l in ((False, "c"), (False, "cols"), (True, "c"), (True, "strided"))
                            for m, f in zip((0, 2, "1d"), FORMS)], trials=4, torch=True)
def tensor_first(e, K, base, masks, f, layout):
    """a tensor container, with or without its matrix, to an array container and back"""
    N = e.dim("N")
    t = mk_gt(e, N, K, base, layout, masks, f=f[0], mixed=f[1], sh0=f[2])
    s = snap(e, t)
    b = t.to_gsdata()
    e.prove(e.eq(e.len(b), N), "count")
    same(e, b, s, "array")
    same_t(e, gst(e).from_gsdata(b, device="cpu"), s, "back")
    same_t(e, t, s, "source")


@scenario("C17", lambda t: [dict(K=K, base=b, layout=l, masks=m, f=FORMS[k % 4]) for k, K in enumerate(KS) for b, l in LAYOUTS for m in ((0, 2) if t != "thorough" else (0, 1, 2, "1d"))],
          trials=4, torch=True)
def selected(e, K, base, layout, masks, f):
    """with a selection mask exactly the selected Gaussians arrive, in order"""
    N = e.dim("N")
    gs = mk(e, N, K, base, layout, masks, f)
    s = snap(e, gs)
    key, n, index = mk_key(e, "mask", N)
    t = gst(e).from_gsdata(gs, device="cpu", mask=key)
    rows_t(e, t, s, n, index, "tensor")
    rows(e, t.to_gsdata(), s, n, index, "back")
    same(e, gs, s, "source")


@scenario("C17", lambda t: [dict(K=K, base=b) for K in (0, 15) for b in (False, True)], trials=4, torch=True)
def wrong_mask(e, K, base):
    N, M = e.dim("N"), e.dim("M")
    e.assume(e.not_(e.eq(N, M)))
    gs = mk_gs(e, N, K, base)
    r, ex = e.attempt(lambda: gst(e).from_gsdata(gs, device="cpu", mask=e.array("key", (M,), "bool")))
    e.prove(isinstance(ex, (ValueError, IndexError)), "refused")


VIEWS = {
    "slice": lambda e, g, N: g[1:],
    "step": lambda e, g, N: g[::2],
    "reversed": lambda e, g, N: g[::-1],
    "mask": lambda e, g, N: g[e.array("sel", (N,), "bool")],
    "attr": lambda e, g, N: attr(e, g, N),
    "inplace": lambda e, g, N: inplace(e, g),
    "consolidate": lambda e, g, N: g.consolidate(),
    "sum": lambda e, g, N: g + g,
    "denormalize": lambda e, g, N: g.denormalize(inplace=True),
    "to_rgb": lambda e, g, N: g.to_rgb(inplace=True),
    "no-sh": lambda e, g, N: no_sh(g),
}


def attr(e, g, N):
    g.scales = e.array("new_scales", (N, 3), "float32", lo=-3, hi=1)
    g.means = e.array("new_means", (N, 3), "float32")
    return g


def inplace(e, g):
    g.means[...] = 3
    g.quats *= 2
    g.opacities += 1
    return g


def no_sh(g):
    g.shN = None
    D = type(g._format["scales"])
    g._format["sh_order"] = D.SH_ORDER_0
    return g


@scenario("C17", lambda t: [dict(K=K, base=b, how=h) for K in (KS if t == "thorough" else (0, 3)) for b in (False, True) for h in VIEWS], trials=4, torch=True)
def derived(e, K, base, how):
    """containers that are the result of other operations"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=2, ranges=dict(scales=(-3, 1), opacities=(-4, 4)))
    gs = VIEWS[how](e, gs, N)
    s = snap(e, gs)
    t = gst(e).from_gsdata(gs, device="cpu")
    same_t(e, t, s, "tensor")
    same(e, t.to_gsdata(), s, "back")
    same(e, gs, s, "source")


TVIEWS = {
    "slice": lambda e, t, N: t[1:],
    "step": lambda e, t, N: t[::2],
    "mask": lambda e, t, N: t[e.array("sel", (N,), "bool", torch=True)],
    "index": lambda e, t, N: t[[0, 0]] if e.truth(N >= 1) else t,
    "attr": lambda e, t, N: tattr(e, t, N),
    "inplace": lambda e, t, N: inplace(e, t),
    "consolidate": lambda e, t, N: t.consolidate(),
    "clone": lambda e, t, N: t.clone(),
    "sum": lambda e, t, N: t + t,
    "normalize": lambda e, t, N: t.normalize(inplace=True),
    "to_rgb": lambda e, t, N: t.to_rgb(inplace=True),
    "double": lambda e, t, N: t.double().float(),
    "grad": lambda e, t, N: grad(t),
    "no-sh": lambda e, t, N: no_sh(t),
}


def tattr(e, t, N):
    t.scales = e.array("new_scales", (N, 3), "float32", lo=-3, hi=1, torch=True)
    t.means = e.array("new_means", (N, 3), "float32", torch=True)
    return t


def grad(t):
    c = t.clone()
    if c._base is not None:
        c._base.requires_grad_(True)
        return type(c)._recreate_from_base(c._base, format_flag=c._format, masks_tensor=c.masks, mask_names=c.mask_names)
    c.means.requires_grad_(True)
    c.scales.requires_grad_(True)
    return c


@scenario("C17", lambda t: [dict(K=K, base=b, how=h) for K in (KS if t == "thorough" else (0, 3)) for b in (False, True) for h in TVIEWS], trials=4, torch=True)
def tensor_derived(e, K, base, how):
    N = e.dim("N")
    lin = how == "normalize"
    t = mk_gt(e, N, K, base, masks=2, f="linear" if lin else "ply", ranges=dict(scales=("0.001" if lin else -3, 1), opacities=("0.01" if lin else -4, "0.9")))
    t = TVIEWS[how](e, t, N)
    s = snap(e, t)
    same(e, t.to_gsdata(), s, "array")
    same_t(e, t, s, "source")


@scenario("C17", lambda t: [dict(K=K, base=b, masks=m, f=f) for K in KS for b in (False, True) for m, f in zip((0, 2), FORMS)], trials=4, torch=True)
def float64(e, K, base, masks, f):
    """in a wider element type the values are the same numbers"""
    N = e.dim("N")
    gs = mk(e, N, K, base, "c", masks, f)
    s = snap(e, gs)
    T = e.torch
    t = gst(e).from_gsdata(gs, device="cpu", dtype=T.float64)
    for n in FIELDS:
        x = getattr(t, n)
        if x is not None:
            e.prove(x.dtype == T.float64, "dtype:" + n)
            e.same_array(x.to(dtype=T.float32), s[n], "value:" + n)
    same_t(e, t.float(), s, "back-to-float32")


@scenario("C17", lambda t: [dict(K=K, base=b, layout=l, how=h, f=f) for K in KS for b, l in ((False, "c"), (False, "cols"), (True, "c"), (True, "strided"))
                            for h, f in (("save", 0), ("plywrite", 0), ("save", 1), ("plywrite", 2), ("save", 3))], trials=3, torch=True)
def saved(e, K, base, layout, how, f):
    """the uncompressed file is the one the array container would write"""
    N = e.dim("N")
    F = FORMS[f]
    gs = mk_gs(e, N, K, base, layout, f=F[0], mixed=F[1], sh0=F[2], ranges=dict(scales=("0.001", 2), opacities=("0.01", "0.99")))
    s = snap(e, gs)
    t = gst(e).from_gsdata(gs, device="cpu")
    gs.save(e.path("a.ply"))
    if how == "save":
        t.save(e.path("b.ply"), compressed=False)
    else:
        e.mod("gsply").plywrite(e.path("b.ply"), t, compressed=False)
    same_t(e, t, s, "source")
    e.same_bytes(e.file_bytes(e.path("a.ply")), e.file_bytes(e.path("b.ply")), "file")
    if f == 0:
        check_file(e, e.file_bytes(e.path("b.ply")), s, N, K, "layout")
        same(e, e.mod("gsply").plyread(e.path("b.ply")), s, "read", masks=False)
        t2 = gst(e).load(e.path("b.ply"), device="cpu")
        same_t(e, t2, s, "load", masks=False)


@scenario("C17", lambda t: [dict(K=K, shn0=z, masks=m) for K in (0,) for z in ("none", "empty") for m in (0, 2)], trials=3, torch=True)
def no_bands(e, K, shn0, masks):
    """degree 0, with an absent or an empty coefficient array"""
    N = e.dim("N")
    gs = mk_gs(e, N, 0, False, masks=masks, shn0=shn0)
    s = snap(e, gs)
    t = gst(e).from_gsdata(gs, device="cpu")
    same_t(e, t, s, "tensor")
    same(e, t.to_gsdata(), s, "back")
    u = mk_gt(e, N, 0, False, masks=masks, shn0=shn0, pre="t_")
    su = snap(e, u)
    same(e, u.to_gsdata(), su, "array")
