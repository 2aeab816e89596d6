"""C11  selection: integers, slices, masks, index arrays."""
from vc.scn import scenario
from .common import FIELDS, SLICES, mk_gs, mk_key, norm_shn, rows, same, snap

KS = [0, 3, 8, 15]


def cfgs(tier, ks=KS, masks=(0, 2)):
    return [dict(K=K, base=b, masks=m) for K in ks for b in (False, True) for m in masks]


def key_cfgs(tier):
    out = []
    for c in cfgs(tier):
        for sp in SLICES:
            # every slice shape at degree 0 and 3, the general one everywhere
            if c["K"] in (0, 15) or sp in ("sym:sym:sym", "sym:sym:-1") or tier == "thorough":
                out.append(dict(c, kind="slice", spec=sp))
        out.append(dict(c, kind="mask", spec=None))
    for c in cfgs(tier, masks=("1d",)):
        out.append(dict(c, kind="mask", spec=None))
        out.append(dict(c, kind="slice", spec="sym:sym:sym"))
    return out


@scenario("C11", key_cfgs, trials=4)
def select(e, K, base, masks, kind, spec):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    key, cnt, ix = mk_key(e, kind, N, spec)
    r = gs[key]
    e.prove(e.eq(e.len(r), cnt), "len")
    rows(e, r, s, cnt, ix, "selected")
    same(e, gs, s, "original")


@scenario("C11", lambda t: cfgs(t, masks=(0, "1d", 2)), trials=6)
def select_indices(e, K, base, masks):
    """index arrays: valid ones select, any index outside [-N, N) is refused"""
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    key, cnt, ix = mk_key(e, "index", N, "any")
    fk = e.freeze(key)
    r, err = e.attempt(lambda: gs[key])
    if err is not None:
        e.prove(isinstance(err, (IndexError, ValueError)), "error-kind")
        # refused only because some index really is outside
        bad = e.np.flatnonzero((fk < -N) | (fk >= N))
        e.prove(e.shape(bad)[0] > 0, "refused-only-when-out-of-range")
    else:
        e.forall((cnt,), lambda i: e.and_(e.get(fk, i) >= -N, e.get(fk, i) < N), "accepted-only-in-range")
        rows(e, r, s, cnt, ix, "selected")
    same(e, gs, s, "original")


@scenario("C11", lambda t: [dict(c, keys=k) for c in cfgs(t, ks=[0, 15]) for k in ("0,1,-1", "2,2", "", "True,False,True", "-3")])
def select_list(e, K, base, masks, keys):
    """Python lists of integers and of booleans"""
    N = e.dim("N", lo=0, hi=None)
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    key = [eval(x) for x in keys.split(",")] if keys else []
    boolean = bool(key) and isinstance(key[0], bool)
    r, err = e.attempt(lambda: gs[key])
    if boolean:
        ok = e.eq(N, len(key))
        want = [i for i, b in enumerate(key) if b]
    else:
        ok = e.and_(*[e.and_(k >= -N, k < N) for k in key])
        want = key
    if err is not None:
        e.prove(isinstance(err, (IndexError, ValueError)), "error-kind")
        e.prove(e.not_(ok), "refused-only-when-invalid")
        return
    e.prove(ok, "accepted-only-when-valid")
    e.prove(e.eq(e.len(r), len(want)), "len")
    for j, w in enumerate(want):
        i = w if w >= 0 else w + N
        for f in FIELDS + ("masks",):
            x, y = getattr(r, f), s[f]
            if f == "shN":
                x, y = norm_shn(x), norm_shn(y)
            if x is None or y is None:
                e.prove(x is None and y is None, f"presence:{f}")
                continue
            fx = e.freeze(x)
            e.forall(e.shape(x)[1:], lambda *q: e.eq(e.get(fx, j, *q), e.get(y, i, *q)), f"row:{f}")


@scenario("C11", lambda t: cfgs(t, masks=(0, "1d", 2)))
def select_int(e, K, base, masks):
    N = e.dim("N")
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    k = e.int_any("k")
    inr = e.and_(k >= -N, k < N)
    r, err = e.attempt(lambda: gs[k])
    g, gerr = e.attempt(lambda: gs.get_gaussian(k))
    if err is not None or gerr is not None:
        e.prove(isinstance(err, IndexError) and isinstance(gerr, IndexError), "error-kind")
        e.prove(e.not_(inr), "refused-only-when-out-of-range")
        return
    e.prove(inr, "accepted-only-in-range")
    i = e.ite(k < 0, k + N, k)
    for f, x in zip(FIELDS + ("masks",), r):
        y = s[f]
        if f == "shN":
            x, y = (None if x is None or int(x.shape[0]) == 0 else x), norm_shn(y)
        if x is None or y is None:
            e.prove(x is None and y is None, f"presence:{f}")
            continue
        if len(e.shape(y)) == 1:
            e.prove(e.eq(x if not hasattr(x, "item") else x.item(), e.get(y, i)), f"item:{f}")
        else:
            fx = e.freeze(x)
            e.forall(e.shape(y)[1:], lambda *q: e.eq(e.get(fx, *q), e.get(y, i, *q)), f"item:{f}")
    rows(e, g, s, 1, lambda j: i, "get_gaussian")


@scenario("C11", lambda t: cfgs(t, ks=[0, 15], masks=(0, 2)))
def wrong_length_mask(e, K, base, masks):
    N, M = e.dim("N"), e.dim("M")
    e.assume(e.not_(e.eq(N, M)))
    gs = mk_gs(e, N, K, base, masks=masks)
    s = snap(e, gs)
    m = e.array("key", (M,), "bool")
    r, err = e.attempt(lambda: gs[m])
    e.prove(isinstance(err, (ValueError, IndexError)), "refused")
    same(e, gs, s, "original")


@scenario("C11", lambda t: [dict(K=K, base=b, bad=w) for K in (0, 15) for b in (False, True) for w in ("str", "float", "tuple", "none")])
def wrong_type(e, K, base, bad):
    N = e.dim("N", lo=1)
    gs = mk_gs(e, N, K, base)
    key = {"str": "a", "float": 1.5, "tuple": (0, 1), "none": None}[bad]
    r, err = e.attempt(lambda: gs[key])
    e.prove(isinstance(err, (TypeError, IndexError, ValueError)), "refused")


@scenario("C11", lambda t: [dict(K=K, base=b, masks=2, n=n) for K in (0, 15) for b in (False, True) for n in (0, 1, 3)])
def iterate(e, K, base, masks, n):
    """iteration visits every Gaussian once, in order"""
    gs = mk_gs(e, n, K, base, masks=masks)
    s = snap(e, gs)
    items = list(gs)
    e.prove(len(items) == n, "count")
    for i, r in enumerate(items):
        for f, x in zip(FIELDS + ("masks",), r):
            y = s[f]
            if f == "shN":
                x, y = (None if x is None or int(x.shape[0]) == 0 else x), norm_shn(y)
            if x is None or y is None:
                e.prove(x is None and y is None, f"presence:{f}")
            elif len(e.shape(y)) > 1:
                fx = e.freeze(x)
                e.forall(e.shape(y)[1:], lambda *q: e.eq(e.get(fx, *q), e.get(y, i, *q)), f"item:{f}")
            else:
                e.prove(e.eq(x if not hasattr(x, "item") else x.item(), e.get(y, i)), f"item:{f}")
