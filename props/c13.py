"""C13  mask layers: a container's masks are a map from names to boolean columns.

Every operation is checked from an arbitrary well-formed state (0..3 layers in any stored form), so the
claims hold along any history of operations by induction."""
from vc.scn import scenario
from .common import FIELDS, mk_gs, mk_masks, norm_shn, rows_array, same, snap

STATES = [0, "1d", 1, 2, 3]
ASSUMPTIONS = ["mask containers with at most 3 layers before the operation (4 after); the number of Gaussians is arbitrary",
               "the number of mask names equals the number of layers (guaranteed by the operations themselves)"]


def mk(e, N, st, K=0, base=False, named=True):
    gs = mk_gs(e, N, K, base, masks=st, names=named)
    return gs


def abstract(e, gs):
    """name -> frozen column"""
    if gs.masks is None:
        return {}
    m = e.freeze(gs.masks)
    d = len(e.shape(m))
    L = 1 if d == 1 else int(e.shape(m)[1])
    names = gs.mask_names if gs.mask_names is not None else [f"layer_{i}" for i in range(L)]
    if len(names) != L:
        return None
    return {n: (m, k, d) for k, n in enumerate(names)}


def col(e, c, i):
    m, k, d = c
    return e.get(m, i) if d == 1 else e.get(m, i, k)


def same_map(e, gs, want, N, name):
    """gs's layers are exactly `want` (name -> function of the index), through get_mask_layer"""
    got = list(gs.mask_names or [])
    e.prove(sorted(got) == sorted(want), name + ":names")
    e.prove((gs.masks is None) == (not want), name + ":presence")
    if gs.masks is not None:
        e.prove(e.eq(e.shape(gs.masks)[0], N), name + ":rows")
        e.prove(e.dtype(gs.masks) == "bool", name + ":dtype")
    for n, fn in want.items():
        m, err = e.attempt(lambda: gs.get_mask_layer(n))
        if err is not None:
            e.prove(False, f"{name}:get-{n}")
            continue
        fm = e.freeze(m)
        e.prove(len(e.shape(fm)) == 1, f"{name}:ndim")
        e.prove(e.eq(e.shape(fm)[0], N), f"{name}:length")
        e.forall((N,), lambda i: e.eq(e.get(fm, i), fn(i)), f"{name}:layer")


def fn_of(e, c):
    return lambda i: col(e, c, i)


@scenario("C13", lambda t: [dict(st=s, kind=k, named=n) for s in STATES for k in ("bool", "int64", "uint8") for n in (True, False)
                            if (n or s) and (n or k == "bool")])
def add_layer(e, st, kind, named):
    N = e.dim("N")
    gs = mk(e, N, st, named=named)
    s = snap(e, gs)
    pre = abstract(e, gs)
    m = e.array("new", (N,), kind) if kind == "bool" else e.array("new", (N,), kind, lo=0, hi=3)
    fm = e.freeze(m)
    gs.add_mask_layer("fresh", m)
    want = {n: fn_of(e, c) for n, c in pre.items()}
    want["fresh"] = (lambda i: e.get(fm, i)) if kind == "bool" else (lambda i: e.not_(e.eq(e.get(fm, i), 0)))
    same_map(e, gs, want, N, "after-add")
    e.prove(list(gs.mask_names) == list(pre) + ["fresh"], "order")
    same(e, gs, s, "data", masks=False)
    e.same_array(m, fm, "caller-mask")
    # the caller goes on using its own array
    m[...] = True if kind == "bool" else 1
    same_map(e, gs, want, N, "after-reuse-of-the-callers-array")


@scenario("C13", lambda t: [dict(st=s, named=n) for s in STATES for n in (True, False) if s], trials=4)
def add_rejects(e, st, named):
    N, M = e.dim("N"), e.dim("M")
    gs = mk(e, N, st, named=named)
    s = snap(e, gs)
    pre = abstract(e, gs)
    ok = e.array("ok", (N,), "bool")
    for n in pre:
        r, err = e.attempt(lambda: gs.add_mask_layer(n, ok))
        e.prove(isinstance(err, ValueError), "duplicate-refused")
        same(e, gs, s, "after-duplicate")
    e.assume(e.not_(e.eq(N, M)))
    bad = e.array("bad", (M,), "bool")
    r, err = e.attempt(lambda: gs.add_mask_layer("fresh", bad))
    e.prove(isinstance(err, ValueError), "wrong-length-refused")
    same(e, gs, s, "after-wrong-length")
    two = e.array("two", (N, 1), "bool")
    r, err = e.attempt(lambda: gs.add_mask_layer("fresh", two))
    e.prove(isinstance(err, ValueError), "wrong-ndim-refused")
    same(e, gs, s, "after-wrong-ndim")


@scenario("C13", lambda t: [dict(st=s, k=k) for s in STATES if s for k in range(1 if s == "1d" else s)])
def remove_layer(e, st, k):
    N = e.dim("N")
    gs = mk(e, N, st)
    s = snap(e, gs)
    pre = abstract(e, gs)
    victim = list(pre)[k]
    gs.remove_mask_layer(victim)
    want = {n: fn_of(e, c) for n, c in pre.items() if n != victim}
    same_map(e, gs, want, N, "after-remove")
    e.prove(list(gs.mask_names or []) == [n for n in pre if n != victim], "order")
    same(e, gs, s, "data", masks=False)
    r, err = e.attempt(lambda: gs.get_mask_layer(victim))
    e.prove(isinstance(err, ValueError), "gone")


@scenario("C13", lambda t: [dict(st=s) for s in STATES], trials=3)
def unknown_names(e, st):
    N = e.dim("N")
    gs = mk(e, N, st)
    s = snap(e, gs)
    for fn in (lambda: gs.get_mask_layer("nope"), lambda: gs.remove_mask_layer("nope"), lambda: gs.combine_masks(layers=["nope"]),
               lambda: gs.combine_masks(mode="xor"), lambda: gs.apply_masks(layers=["nope"], inplace=True),
               lambda: gs.apply_masks(mode="nand", inplace=True)):
        r, err = e.attempt(fn)
        e.prove(isinstance(err, ValueError), "refused")
        same(e, gs, s, "unchanged")
    if st == 0:
        r, err = e.attempt(lambda: gs.combine_masks())
        e.prove(isinstance(err, ValueError), "nothing-to-combine")


def subsets(L):
    names = [f"m{k}" for k in range(L)]
    out = [None] + [[n] for n in names]
    if L > 1:
        out += [names[::-1], names[:2], [names[0], names[0]]]
    if L > 2:
        out += [[names[0], names[2]], [names[2], names[1]]]
    return out


def comb_cfgs(t):
    out = []
    for st in STATES:
        if not st:
            continue
        L = 1 if st == "1d" else st
        for mode in ("and", "or"):
            for ls in subsets(L):
                out.append(dict(st=st, mode=mode, layers=ls))
    return out


def combined(e, pre, mode, layers):
    cs = [pre[n] for n in (layers or list(pre))]

    def fn(i):
        vs = [col(e, c, i) for c in cs]
        return e.and_(*vs) if mode == "and" else e.or_(*vs)
    return fn


@scenario("C13", comb_cfgs, trials=3)
def combine(e, st, mode, layers):
    N = e.dim("N")
    gs = mk(e, N, st)
    s = snap(e, gs)
    pre = abstract(e, gs)
    r = gs.combine_masks(mode=mode, layers=layers)
    fr = e.freeze(r)
    fn = combined(e, pre, mode, layers)
    e.prove(len(e.shape(fr)) == 1, "ndim")
    e.prove(e.eq(e.shape(fr)[0], N), "length")
    e.prove(e.dtype(fr) == "bool", "dtype")
    e.forall((N,), lambda i: e.eq(e.get(fr, i), fn(i)), "combined")
    same(e, gs, s, "original")


def app_cfgs(t):
    out = []
    for c in comb_cfgs(t):
        for ip in (True, False):
            for K, b in ((0, False), (0, True), (15, True), (3, False)):
                if t == "thorough" or c["layers"] is None or (K, b) in ((0, True), (3, False)) and c["st"] != 3 or len(c["layers"]) == 2 and (K, b) == (15, True):
                    out.append(dict(c, inplace=ip, K=K, base=b))
    return out


@scenario("C13", app_cfgs, trials=2)
def apply(e, st, mode, layers, inplace, K, base):
    N = e.dim("N")
    gs = mk(e, N, st, K, base)
    s = snap(e, gs)
    pre = abstract(e, gs)
    fn = combined(e, pre, mode, layers)
    r = gs.apply_masks(mode=mode, layers=layers, inplace=inplace)
    if inplace:
        e.prove(r is gs, "same-object")
    else:
        same(e, gs, s, "original")
    # oracle: the increasing list of the indices whose combined value is true
    m = s["masks"]
    if len(e.shape(m)) == 1:
        vec = m
    else:
        names = list(pre)
        cols = [m[:, names.index(n)] for n in (layers or names)]
        vec = cols[0]
        for c in cols[1:]:
            vec = (vec & c) if mode == "and" else (vec | c)
    nz = e.freeze(e.np.flatnonzero(vec))
    cnt = e.shape(nz)[0]
    for f in FIELDS + ("masks",):
        x, y = getattr(r, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        rows_array(e, x, y, cnt, lambda i: e.get(nz, i), f"kept:{f}")
    e.forall((cnt,), lambda i: fn(e.get(nz, i)), "kept-are-true")
    e.prove(list(r.mask_names) == s["mask_names"], "names")
    e.prove(dict(r._format) == s["_format"], "format")


@scenario("C13", lambda t: [dict(st=s, seq=q) for s in (0, "1d", 2) for q in ("a", "aa", "aar", "ara", "rar", "aaR", "raa")], trials=3)
def history(e, st, seq):
    """a add, r remove the oldest layer, R remove the newest"""
    N = e.dim("N")
    gs = mk(e, N, st)
    model = {n: fn_of(e, c) for n, c in abstract(e, gs).items()}
    for k, op in enumerate(seq):
        if op == "a":
            m = e.array(f"new{k}", (N,), "bool")
            fm = e.freeze(m)
            gs.add_mask_layer(f"n{k}", m)
            m[...] = False
            model[f"n{k}"] = lambda i, fm=fm: e.get(fm, i)
        elif model:
            v = list(model)[0 if op == "r" else -1]
            gs.remove_mask_layer(v)
            del model[v]
        same_map(e, gs, model, N, f"step{k}")
