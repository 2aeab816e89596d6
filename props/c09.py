"""C09  everything derived from a container shows the values it currently has.

Every derivation is checked after every kind of edit, from containers in every internal representation; the
reference is a container built afresh from frozen copies of what the attributes show after the edit."""
from vc.scn import scenario
from .common import FIELDS, fmt, mk_gs, norm_shn, rows, rows_array, same, snap, width

EDITS = ["none", "elem", "inplace", "attr:means", "attr:scales", "attr:quats", "attr:opacities", "attr:sh0", "attr:shN", "shN-none", "attr-all",
         "normalize", "denormalize", "to_rgb", "rgb-roundtrip", "apply_masks", "add_layer", "remove_layer", "masks", "contiguous", "slice-view",
         "mask-select", "retag", "twice", "slice-attr"]
RANGES = {"scales": (-4, 1), "opacities": (-5, 5)}
LIN = {"scales": ("0.001", 2), "opacities": ("0.01", "0.99")}


def edited(e, K, base, edit, consolidated=False):
    """a container after one edit, and the reference built from what it shows"""
    N = e.dim("N")
    lin = edit == "normalize"
    gs = mk_gs(e, N, K, base, masks=2, f="linear" if lin else "ply", ranges=(LIN if lin else RANGES))
    if consolidated:
        gs = gs.consolidate()
    gs = do_edit(e, gs, K, edit, N)
    return gs


def do_edit(e, gs, K, edit, N):
    n = e.len(gs)

    def new(f, pre="new_"):
        r = RANGES.get(f, (None, None))
        return e.array(pre + f, (n,) + width(K, f), "float32", lo=r[0], hi=r[1])
    if edit == "none":
        pass
    elif edit == "elem":
        k = e.integer("k")
        e.assume(k < N)
        v = e.real("v", -1, 1)
        gs.means[k, 1] = v
        gs.opacities[k] = v
        gs.quats[k] = v
        gs.scales[k, 0] = v
        gs.sh0[k, 2] = v
        if K:
            gs.shN[k, K - 1, 1] = v
    elif edit == "inplace":
        gs.means *= 2
        gs.sh0 += 1
        gs.quats -= gs.quats[:, :1]
        if K:
            gs.shN *= -1
        gs.opacities /= 2
    elif edit.startswith("attr:"):
        f = edit[5:]
        if f == "shN" and not K:
            gs.sh0 = new("sh0")
        else:
            setattr(gs, f, new(f))
    elif edit == "attr-all":
        for f in FIELDS:
            if f != "shN" or K:
                setattr(gs, f, new(f))
    elif edit == "shN-none":
        gs.shN = None
    elif edit == "normalize":
        gs.normalize(inplace=True)
    elif edit == "denormalize":
        gs.denormalize(inplace=True)
    elif edit == "to_rgb":
        gs.to_rgb(inplace=True)
    elif edit == "rgb-roundtrip":
        gs.to_rgb(inplace=True)
        gs.sh0[...] = 0.25
        gs.to_sh(inplace=True)
    elif edit == "apply_masks":
        gs.apply_masks(inplace=True)
    elif edit == "add_layer":
        gs.add_mask_layer("extra", e.array("extra", (n,), "bool"))
    elif edit == "remove_layer":
        gs.remove_mask_layer("m0")
    elif edit == "masks":
        gs.masks = e.array("new_masks", (n, 2), "bool")
    elif edit == "contiguous":
        gs.make_contiguous(inplace=True)
        gs.means[...] = 3
    elif edit == "slice-view":
        # editing a slice that shares memory shows in the parent's attributes, and must show in its results
        gs[1:].means[...] = 5
        gs[:2].opacities[...] = 1
    elif edit == "mask-select":
        gs = gs[e.array("selkey", (n,), "bool")]
        gs.means[...] = 5
    elif edit == "slice-attr":
        gs = gs[1:]
        n = e.len(gs)
        gs.scales = e.array("new_scales", (n, 3), "float32", lo=-4, hi=1)
        gs = gs[:3]
    elif edit == "retag":
        gs = gs.with_format(sh0=fmt(e, K, sh0="rgb")["sh0"])
    elif edit == "twice":
        gs.means = new("means")
        gs.means[...] = 2
        gs.quats = new("quats")
        gs = gs.consolidate()
        gs.opacities[...] = 1
        gs.sh0 = new("sh0")
    else:
        raise AssertionError(edit)
    return gs


def fresh(e, gs):
    g = e.mod("gsply.gsdata").GSData
    s = snap(e, gs)
    return g(**{f: s[f] for f in FIELDS}, masks=s["masks"], mask_names=s["mask_names"], _format=dict(s["_format"])), s


def cfgs(t):
    return [dict(K=K, base=b, edit=ed) for K in ((0, 3, 8, 15) if t == "thorough" else (0, 3)) for b in (False, True) for ed in EDITS]


@scenario("C09", cfgs, trials=3)
def derived(e, K, base, edit):
    gs = edited(e, K, base, edit)
    s = snap(e, gs)
    n = e.len(gs)
    same(e, gs.copy(), s, "copy")
    rows(e, gs[1:], s, e.max(n - 1, 0), lambda i: i + 1, "slice")
    rows(e, gs[::-1], s, n, lambda i: n - 1 - i, "reversed")
    rows(e, gs.copy_slice(slice(None, None, 2)), s, (n + 1) // 2, lambda i: 2 * i, "copy-slice")
    same(e, gs.consolidate(), s, "consolidate")
    same(e, gs.make_contiguous(inplace=False), s, "contiguous")
    d = gs.to_dict()
    for f in FIELDS:
        e.same_array(norm_shn(d[f]) if f == "shN" else d[f], norm_shn(s[f]) if f == "shN" else s[f], f"dict:{f}")
    for f, x in zip(FIELDS, gs.unpack()):
        e.same_array(norm_shn(x) if f == "shN" else x, norm_shn(s[f]) if f == "shN" else s[f], f"unpack:{f}")
    same(e, gs, s, "itself")


@scenario("C09", cfgs, trials=3)
def derived_selection(e, K, base, edit):
    gs = edited(e, K, base, edit)
    s = snap(e, gs)
    n = e.len(gs)
    m = e.array("key", (n,), "bool")
    nz = e.freeze(e.np.flatnonzero(m))
    rows(e, gs[m], s, e.shape(nz)[0], lambda i: e.get(nz, i), "mask")
    M = e.dim("M")
    k = e.array("ikey", (M,), "int64", lo=0, hi=100000)
    if not e.sym:
        e.assume(n > 0 or M == 0)
        k = k % max(n, 1)
    fk = e.freeze(k)
    e.assume(e.eq(e.shape(e.np.flatnonzero(fk >= n))[0], 0))
    try:
        r = gs[k]
    except IndexError:
        e.assume(e.shape(e.np.flatnonzero((fk >= n) | (fk < -n)))[0] > 0)
        e.assume(False)
    rows(e, r, s, M, lambda i: e.get(fk, i), "index")


@scenario("C09", cfgs, trials=3)
def derived_sum(e, K, base, edit):
    gs = edited(e, K, base, edit)
    s = snap(e, gs)
    n = e.len(gs)
    r = gs + gs
    for f in FIELDS + ("masks",):
        x, y = getattr(r, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        if x is None or y is None:
            e.prove(x is None and y is None, f"sum:{f}")
            continue
        rows_array(e, x[:n], y, n, lambda i: i, f"sum:first:{f}") if not (f == "masks" and len(e.shape(x)) != len(e.shape(y))) else None
        rows_array(e, x[n:], y, n, lambda i: i, f"sum:second:{f}") if not (f == "masks" and len(e.shape(x)) != len(e.shape(y))) else None
    c = type(gs).concatenate([gs, gs])
    for f in FIELDS:
        x, y = getattr(c, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        if x is None or y is None:
            e.prove(x is None and y is None, f"cat:{f}")
            continue
        rows_array(e, x[:n], y, n, lambda i: i, f"cat:first:{f}")
        rows_array(e, x[n:], y, n, lambda i: i, f"cat:second:{f}")
    same(e, gs, s, "itself")


@scenario("C09", cfgs, trials=3)
def saved(e, K, base, edit):
    """the file written equals the file of a fresh container with the same values"""
    gs = edited(e, K, base, edit)
    ref, s = fresh(e, gs)
    gs.save(e.path("a.ply"))
    ref.save(e.path("b.ply"))
    a, b = e.file_bytes(e.path("a.ply")), e.file_bytes(e.path("b.ply"))
    e.same_bytes(a, b, "file")
    same(e, gs, s, "itself")


@scenario("C09", lambda t: [dict(K=K, base=b, edit=ed) for K in ((0, 3, 8, 15) if t == "thorough" else (0, 3)) for b in (False, True) for ed in
                            ("elem", "inplace", "attr:means", "attr-all", "denormalize", "apply_masks", "rgb-roundtrip", "shN-none", "twice")], trials=3)
def converted(e, K, base, edit):
    """conversions of the edited container equal those of a fresh one"""
    gs = edited(e, K, base, edit)
    ref, s = fresh(e, gs)
    for name in ("normalize", "denormalize", "to_rgb", "to_sh"):
        a, b = getattr(gs, name)(inplace=False), getattr(ref, name)(inplace=False)
        same(e, a, snap(e, b), name)
    same(e, gs, s, "itself")
