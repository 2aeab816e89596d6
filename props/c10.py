"""C10  copies, consolidation, contiguity."""
from vc.scn import scenario
from .common import FIELDS, mk_gs, mk_key, rows, same, snap

KS = [0, 3, 8, 15]


def cfgs(tier):
    out = []
    for K in KS:
        for base in (False, True):
            for m in (0, "1d", 2):
                out.append(dict(K=K, base=base, masks=m))
    return out


@scenario("C10", cfgs)
def copy(e, K, base, masks):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    c = gs.copy()
    same(e, c, s, "copy", dtype=True)
    same(e, gs, s, "original")
    e.prove(c is not gs and c.mask_names is not gs.mask_names or gs.mask_names is None, "names-unshared")


def poke(e, gs, masks):
    """write into every array of a container, rename its layers, retag it"""
    for n in FIELDS:
        a = getattr(gs, n)
        if a is not None:
            a[...] = 7
    if gs.masks is not None:
        gs.masks[...] = True
    if gs.mask_names is not None:
        gs.mask_names[0] = "poked"
    D = e.mod("gsply.gsdata").DataFormat
    gs._format["sh0"] = D.SH0_RGB


@scenario("C10", cfgs)
def copy_independent(e, K, base, masks):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    c = gs.copy()
    poke(e, c, masks)
    same(e, gs, s, "original-after-editing-copy")
    c2 = gs.copy()
    s2 = snap(e, c2)
    poke(e, gs, masks)
    same(e, c2, s2, "copy-after-editing-original")


@scenario("C10", cfgs)
def consolidate(e, K, base, masks):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    c = gs.consolidate()
    same(e, c, s, "consolidate")
    same(e, gs, s, "original")
    e.prove(c._base is not None, "has-base")


@scenario("C10", lambda t: [dict(K=K, base=b, masks=m, inplace=i, layout=l) for K in KS for b in (False, True) for m in (0, 2)
                            for i in (True, False) for l in (("c",) if b else ("c", "cols", "f"))])
def make_contiguous(e, K, base, masks, inplace, layout):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks, layout=layout)
    s = snap(e, gs)
    c = gs.make_contiguous(inplace=inplace)
    same(e, c, s, "contiguous")
    e.prove(c.is_contiguous(), "is-contiguous")
    for n in FIELDS + ("masks",):
        a = getattr(c, n)
        if a is not None:
            e.prove(a.flags["C_CONTIGUOUS"], f"flag:{n}")
    if inplace:
        e.prove(c is gs, "same-object")
    else:
        same(e, gs, s, "original")


def slice_keys(t):
    out = []
    for K in (KS if t == "thorough" else (0, 8)):
        for b in (False, True):
            for m in (0, 2, "1d"):
                for kind, sp in (("slice", "sym:sym:None"), ("slice", "sym:sym:-1"), ("slice", "None:None:2"), ("mask", None), ("index", None), ("int", None)):
                    out.append(dict(K=K, base=b, masks=m, kind=kind, spec=sp))
    return out


@scenario("C10", slice_keys, trials=3)
def copy_slice(e, K, base, masks, kind, spec):
    """the copied slice holds the selected Gaussians, and neither side sees the other's edits"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    if kind == "int":
        k = e.int_any("k")
        if not e.sym:
            e.assume(N > 0)
            k = k % (2 * N) - N
        e.assume(e.and_(k >= -N, k < N))
        key, cnt, ix = k, 1, (lambda j: e.ite(k < 0, k + N, k))
    else:
        key, cnt, ix = mk_key(e, kind, N, spec)
        if kind == "index":
            fk = e.freeze(key)
            bad = e.np.flatnonzero((fk < -N) | (fk >= N))
            e.assume(e.eq(e.shape(bad)[0], 0))
    try:
        r = gs.copy_slice(key)
    except IndexError:
        # only an index outside the range may be refused (and the precondition excludes it)
        if kind == "index":
            e.prove(e.shape(bad)[0] > 0, "refused-only-when-out-of-range")
            return
        raise
    rows(e, r, s, cnt, ix, "slice")
    same(e, gs, s, "original")
    rs = snap(e, r)
    poke(e, r, masks)
    same(e, gs, s, "original-after-editing-slice")
    r2 = gs.copy_slice(key)
    same(e, r2, rs, "second-slice")
    s2 = snap(e, r2)
    poke(e, gs, masks)
    same(e, r2, s2, "slice-after-editing-original")


@scenario("C10", lambda t: [dict(K=K, base=b, masks=m) for K in (0, 15) for b in (False, True) for m in (0, 2)])
def copy_slice_out_of_range(e, K, base, masks):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    k = e.int_any("k")
    e.assume(e.or_(k < -N, k >= N))
    r, err = e.attempt(lambda: gs.copy_slice(k))
    e.prove(isinstance(err, IndexError), "refused")
