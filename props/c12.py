"""C12  adding and concatenating containers."""
from vc.scn import scenario
from .common import cat_rows, fmt, mk_gs, same, snap

KS = [0, 3, 8, 15]
MASKS = [(0, 0), (2, 2), ("1d", "1d"), (2, 0), (0, 2), ("1d", 0), (0, "1d"), (1, "1d"), ("1d", 1), (2, 3)]


def cfgs(tier):
    out = []
    for K in KS:
        for b1 in (False, True):
            for b2 in (False, True):
                for m in MASKS:
                    if K in (0, 8) or m in ((2, 2), (2, 0), (0, "1d")) or tier == "thorough":
                        out.append(dict(K=K, b1=b1, b2=b2, m1=m[0], m2=m[1]))
    return out


def ncols(m):
    return 1 if m == "1d" else m


@scenario("C12", cfgs, trials=3)
def add(e, K, b1, b2, m1, m2):
    N, M = e.dim("N"), e.dim("M")
    a = mk_gs(e, N, K, b1, masks=m1, pre="a_")
    b = mk_gs(e, M, K, b2, masks=m2, pre="b_")
    sa, sb = snap(e, a), snap(e, b)
    r = a + b
    e.prove(e.eq(e.len(r), N + M), "len")
    cat_rows(e, r, [(sa, N), (sb, M)], "sum")
    e.prove(dict(r._format) == sa["_format"], "format")
    # masks: every Gaussian keeps its own row; a side without masks counts as all false
    if not m1 and not m2:
        e.prove(r.masks is None, "no-masks")
    elif m1 and m2 and ncols(m1) != ncols(m2):
        # layers that do not correspond may be dropped, never mixed
        if r.masks is not None:
            e.prove(e.eq(e.shape(r.masks)[0], N + M), "masks:count")
    else:
        L = ncols(m1 or m2)
        e.prove(r.masks is not None, "masks-carried")
        sm = e.shape(r.masks)
        e.prove(e.eq(sm[0], N + M), "masks:count")
        e.prove(len(sm) == 1 and L == 1 or len(sm) == 2 and int(sm[1]) == L, "masks:layers")
        fm = e.freeze(r.masks)

        def at(m, i, l):
            return e.get(m, i, l) if len(e.shape(m)) == 2 else e.get(m, i)
        e.forall((N, L), lambda i, l: e.eq(at(fm, i, l), at(sa["masks"], i, l) if m1 else False), "masks:first")
        e.forall((M, L), lambda i, l: e.eq(at(fm, N + i, l), at(sb["masks"], i, l) if m2 else False), "masks:second")
        want = sa["mask_names"] if m1 else sb["mask_names"]
        e.prove(list(r.mask_names or []) == list(want), "mask-names")
    same(e, a, sa, "left")
    same(e, b, sb, "right")


@scenario("C12", lambda t: [dict(K=K, parts=p) for K in (KS if t == "thorough" else (0, 8)) for p in
                            ("aa", "ab", "ba", "bb", "aba", "bbb", "baab", "a", "b", "AB", "Bs")], trials=3)
def concatenate(e, K, parts):
    """a: separate arrays, b: backed by one matrix; capitals carry masks; s: sliced view of a backed container"""
    g = e.mod("gsply.gsdata").GSData
    items, ps = [], []
    for k, c in enumerate(parts):
        N = e.dim(f"N{k}")
        x = mk_gs(e, N, K, c in "bBs", masks=2 if c.isupper() else 0, pre=f"p{k}_")
        if c == "s":
            x = x[1:]
            N = e.len(x)
        items.append(x)
        ps.append((snap(e, x), N))
    r = g.concatenate(items)
    cat_rows(e, r, ps, "part")
    e.prove(dict(r._format) == ps[0][0]["_format"], "format")
    for k, x in enumerate(items):
        same(e, x, ps[k][0], f"operand{k}")
    if r.masks is not None:
        e.prove(e.eq(e.shape(r.masks)[0], e.len(r)), "masks:count")


@scenario("C12", lambda t: [dict(K=K, base=b) for K in (0, 8) for b in (False, True)], trials=3)
def sum_builtin(e, K, base):
    """sum() of three containers"""
    items, ps = [], []
    for k in range(3):
        N = e.dim(f"N{k}")
        x = mk_gs(e, N, K, base, masks=2, pre=f"p{k}_")
        items.append(x)
        ps.append((snap(e, x), N))
    r = sum(items)
    cat_rows(e, r, ps, "part", masks=True)
    e.prove(r.mask_names == ps[0][0]["mask_names"], "mask-names")


@scenario("C12", lambda t: [dict(K1=a, K2=b, base=bb, how=h) for a in KS for b in KS if a != b for bb in (False, True) for h in ("add", "concat")
                            if t == "thorough" or (a + b + bb) % 2 or a == 0], trials=2)
def reject_degree(e, K1, K2, base, how):
    N, M = e.dim("N"), e.dim("M")
    a, b = mk_gs(e, N, K1, base, pre="a_"), mk_gs(e, M, K2, base, pre="b_")
    sa, sb = snap(e, a), snap(e, b)
    r, err = e.attempt((lambda: a + b) if how == "add" else (lambda: e.mod("gsply.gsdata").GSData.concatenate([a, b])))
    e.prove(isinstance(err, ValueError), "refused")
    same(e, a, sa, "left")
    same(e, b, sb, "right")


DIFFS = ["scales", "opacities", "sh0", "both"]


@scenario("C12", lambda t: [dict(K=K, base=bb, how=h, diff=d) for K in (0, 8) for bb in (False, True) for h in ("add", "concat", "concat3")
                            for d in DIFFS], trials=2)
def reject_format(e, K, base, how, diff):
    N, M = e.dim("N"), e.dim("M")
    g = e.mod("gsply.gsdata").GSData
    a, b = mk_gs(e, N, K, base, pre="a_"), mk_gs(e, M, K, base, pre="b_")
    f = fmt(e, K, "linear" if diff in ("scales", "both") else "ply", "linear" if diff in ("opacities", "both") else "ply",
            "rgb" if diff == "sh0" else "sh")
    b = b.with_format(scales=f["scales"], opacities=f["opacities"], sh0=f["sh0"])
    if how == "concat3":
        fn = lambda: g.concatenate([a, a, b])
    else:
        fn = (lambda: a + b) if how == "add" else (lambda: g.concatenate([a, b]))
    r, err = e.attempt(fn)
    e.prove(isinstance(err, ValueError), "refused")


@scenario("C12", lambda t: [dict()], trials=1)
def reject_empty(e):
    r, err = e.attempt(lambda: e.mod("gsply.gsdata").GSData.concatenate([]))
    e.prove(isinstance(err, ValueError), "refused")


@scenario("C12", lambda t: [dict(b1=x, b2=y, z1=z, z2=w) for x in (0, 1) for y in (0, 1) for z in ("none", "empty") for w in ("none", "empty")], trials=2)
def add_degree0_forms(e, b1, b2, z1, z2):
    """an absent shN and one with zero bands may be combined"""
    N, M = e.dim("N"), e.dim("M")
    a = mk_gs(e, N, 0, bool(b1), pre="a_", shn0=z1)
    b = mk_gs(e, M, 0, bool(b2), pre="b_", shn0=z2)
    sa, sb = snap(e, a), snap(e, b)
    cat_rows(e, a + b, [(sa, N), (sb, M)], "sum")
    cat_rows(e, e.mod("gsply.gsdata").GSData.concatenate([a, b]), [(sa, N), (sb, M)], "cat")
