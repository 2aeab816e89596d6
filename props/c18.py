"""C18  tensor container operations mirror the array container.

The contracts are those of C09 to C15, stated over the tensor container: selection, concatenation, mask layers, copies,
conversions, and everything derived after an edit.  Index functions and the oracle for mask layers are shared with those
checks, so both containers are held to one specification."""
from vc.scn import scenario
from .c12 import DIFFS, MASKS, ncols
from .c13 import STATES, abstract, combined, comb_cfgs, fn_of, same_map
from .c14 import logit_, sig
from .common import C0, DEGREE, FIELDS, cat_rows, fmt, mk_gs, mk_key, norm_shn, snap, width
from .tensors import mk_gt, rows_t, same_t

KS = (0, 3, 8, 15)
ASSUMPTIONS = ["CPU device, eager mode; torch operations follow their documented element-wise meaning (vc/faketorch.py)",
               "mask containers with at most 3 layers before an operation",
               "slices with a negative step are refused by torch and are not part of the claim"]


def GT(e):
    return e.mod("gsply.torch.gstensor").GSTensor


# ---------------------------------------------------------------- selection
def sel_cfgs(t):
    out = []
    for K in KS:
        for b in (False, True):
            for m in (0, 2, "1d"):
                for kind, spec, form in (("slice", "sym:sym:None", None), ("slice", "None:None:2", None), ("slice", "sym:None:3", None), ("slice", "None:sym:None", None),
                                         ("mask", None, "np"), ("mask", None, "torch"), ("index", None, "np"), ("index", None, "torch")):
                    if t == "thorough" or K in (0, 15) or (m == 2 and kind != "slice") or spec == "sym:sym:None":
                        out.append(dict(K=K, base=b, masks=m, kind=kind, spec=spec, form=form))
    return out


@scenario("C18", sel_cfgs, trials=4, torch=True)
def select(e, K, base, masks, kind, spec, form):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, masks=masks)
    s = snap(e, t)
    key, n, index = mk_key(e, kind, N, "any" if kind == "index" else spec)
    fk = e.freeze(key) if kind == "index" else None
    if form == "torch":
        key = e.torch.from_numpy(key)
    r, err = e.attempt(lambda: t[key])
    if err is not None:
        e.prove(kind == "index" and isinstance(err, (IndexError, ValueError)), "error-kind")
        bad = e.np.flatnonzero((fk < -N) | (fk >= N))
        e.prove(e.shape(bad)[0] > 0, "refused-only-when-out-of-range")
        return
    if kind == "index":
        e.forall((n,), lambda i: e.and_(e.get(fk, i) >= -N, e.get(fk, i) < N), "accepted-only-in-range")
    e.prove(e.eq(e.len(r), n), "len")
    rows_t(e, r, s, n, index, "selected")
    same_t(e, t, s, "original")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")


@scenario("C18", lambda t: [dict(K=K, base=b, keys=k, form=f) for K in (0, 15) for b in (False, True)
                            for k in ("0,1,-1", "2,2", "", "True,False,True", "-3") for f in ("list", "np", "torch")], trials=4, torch=True)
def select_list(e, K, base, keys, form):
    N = e.dim("N", lo=0, hi=None)
    t = mk_gt(e, N, K, base, masks=2)
    s = snap(e, t)
    key = [eval(x) for x in keys.split(",")] if keys else []
    boolean = bool(key) and isinstance(key[0], bool)
    k = key
    if form == "np":
        k = e.np.array(key, dtype="bool" if boolean else "int64")
    elif form == "torch":
        k = e.torch.tensor(key, dtype=e.torch.bool if boolean else e.torch.long)
    r, err = e.attempt(lambda: t[k])
    ok = e.eq(N, len(key)) if boolean else e.and_(*[e.and_(x >= -N, x < N) for x in key])
    want = [i for i, b in enumerate(key) if b] if boolean else key
    if err is not None:
        e.prove(isinstance(err, (IndexError, ValueError)), "error-kind")
        e.prove(e.not_(ok), "refused-only-when-invalid")
        return
    e.prove(ok, "accepted-only-when-valid")
    e.prove(e.eq(e.len(r), len(want)), "len")
    for j, w in enumerate(want):
        one(e, s, w if w >= 0 else w + N, lambda f: pick(e, getattr(r, f), j), f"row{j}")


def pick(e, x, j):
    """row j of an attribute as (shape, accessor)"""
    if x is None:
        return None
    fx = e.freeze(x)
    return e.shape(fx)[1:], lambda *q: e.get(fx, j, *q)


def one(e, s, i, get, name):
    for f in FIELDS + ("masks",):
        y = norm_shn(s[f]) if f == "shN" else s[f]
        g = get(f)
        if y is None:
            e.prove(g is None or int(g[0][0]) == 0, f"{name}:presence:{f}")
            continue
        e.prove(g is not None, f"{name}:presence:{f}")
        e.prove(len(g[0]) == len(e.shape(y)) - 1, f"{name}:ndim:{f}")
        if len(e.shape(y)) == 1:
            e.prove(e.eq(g[1](), e.get(y, i)), f"{name}:{f}")
        else:
            e.forall(e.shape(y)[1:], lambda *q: e.eq(g[1](*q), e.get(y, i, *q)), f"{name}:{f}")


def item(e, x):
    if x is None:
        return None
    fx = e.freeze(x)
    return e.shape(fx), lambda *q: e.get(fx, *q)


@scenario("C18", lambda t: [dict(K=K, base=b, masks=m) for K in KS for b in (False, True) for m in (0, 2, "1d")], trials=6, torch=True)
def select_int(e, K, base, masks):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, masks=masks)
    s = snap(e, t)
    k = e.int_any("k")
    inr = e.and_(k >= -N, k < N)
    r, err = e.attempt(lambda: t[k])
    g, gerr = e.attempt(lambda: t.get_gaussian(k))
    if err is not None or gerr is not None:
        e.prove(isinstance(err, IndexError) and isinstance(gerr, IndexError), "error-kind")
        e.prove(e.not_(inr), "refused-only-when-out-of-range")
        return
    e.prove(inr, "accepted-only-in-range")
    i = e.ite(k < 0, k + N, k)
    items = dict(zip(FIELDS + ("masks",), r))
    one(e, s, i, lambda f: item(e, items[f]), "item")
    rows_t(e, g, s, 1, lambda j: i, "get_gaussian")


@scenario("C18", lambda t: [dict(K=K, base=b, n=n) for K in (0, 15) for b in (False, True) for n in (0, 1, 3)], torch=True)
def iterate(e, K, base, n):
    t = mk_gt(e, n, K, base, masks=2)
    s = snap(e, t)
    items = list(t)
    e.prove(len(items) == n, "count")
    for i, r in enumerate(items):
        d = dict(zip(FIELDS + ("masks",), r))
        one(e, s, i, lambda f: item(e, d[f]), f"item{i}")


@scenario("C18", lambda t: [dict(K=K, base=b, form=f) for K in (0, 15) for b in (False, True) for f in ("np", "torch")], torch=True)
def wrong_length_mask(e, K, base, form):
    N, M = e.dim("N"), e.dim("M")
    e.assume(e.not_(e.eq(N, M)))
    t = mk_gt(e, N, K, base, masks=2)
    s = snap(e, t)
    m = e.array("key", (M,), "bool", torch=form == "torch")
    r, err = e.attempt(lambda: t[m])
    e.prove(isinstance(err, (ValueError, IndexError)), "refused")
    same_t(e, t, s, "original")


@scenario("C18", lambda t: [dict(K=K, base=b, bad=w) for K in (0, 15) for b in (False, True) for w in ("str", "float", "tuple", "none")], torch=True)
def wrong_type(e, K, base, bad):
    N = e.dim("N", lo=1)
    t = mk_gt(e, N, K, base)
    key = {"str": "a", "float": 1.5, "tuple": (0, 1), "none": None}[bad]
    r, err = e.attempt(lambda: t[key])
    e.prove(isinstance(err, (TypeError, IndexError, ValueError)), "refused")


# ---------------------------------------------------------------- copies
def poke(e, t):
    for n in FIELDS:
        a = getattr(t, n)
        if a is not None:
            a[...] = 7
    if t.masks is not None:
        t.masks[...] = True
    if t.mask_names is not None:
        t.mask_names[0] = "poked"
    t._format["sh0"] = e.mod("gsply.gsdata").DataFormat.SH0_RGB


@scenario("C18", lambda t: [dict(K=K, base=b, masks=m, how=h) for K in KS for b in (False, True) for m in (0, "1d", 2) for h in ("clone", "mask", "index")], torch=True)
def independent(e, K, base, masks, how):
    """a clone, and a selection by mask or index array, share nothing with their source"""
    N = e.dim("N")
    t = mk_gt(e, N, K, base, masks=masks)
    s = snap(e, t)
    if how == "clone":
        make = t.clone
    else:
        key = e.array("sel", (N,), "bool", torch=True) if how == "mask" else e.torch.arange(N)
        make = lambda: t[key]
    c = make()
    sc = snap(e, c)
    if how == "clone":
        same_t(e, c, s, "clone")
    poke(e, c)
    same_t(e, t, s, "original-after-editing-copy")
    c2 = make()
    same_t(e, c2, sc, "second-copy")
    poke(e, t)
    same_t(e, c2, sc, "copy-after-editing-original")


@scenario("C18", lambda t: [dict(K=K, base=b, masks=m, layout=l) for K in KS for b in (False, True) for m in (0, "1d", 2) for l in ("c", "strided")], torch=True)
def consolidate(e, K, base, masks, layout):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, layout, masks=masks)
    s = snap(e, t)
    c = t.consolidate()
    same_t(e, c, s, "consolidate")
    same_t(e, t, s, "original")
    e.prove(c._base is not None, "has-base")
    d = c.to_dict()
    for f, x in zip(FIELDS, c.unpack()):
        y = s[f]
        e.same_array(norm_shn(x) if f == "shN" else x, norm_shn(y) if f == "shN" else y, f"unpack:{f}")
        e.same_array(norm_shn(d[f]) if f == "shN" else d[f], norm_shn(y) if f == "shN" else y, f"dict:{f}")


# ---------------------------------------------------------------- concatenation
def add_cfgs(t):
    return [dict(K=K, b1=p, b2=q, m1=m[0], m2=m[1]) for K in KS for p in (False, True) for q in (False, True) for m in MASKS
            if K in (0, 8) or m in ((2, 2), (2, 0), (0, "1d")) or t == "thorough"]


@scenario("C18", add_cfgs, trials=3, torch=True)
def add(e, K, b1, b2, m1, m2):
    N, M = e.dim("N"), e.dim("M")
    a, b = mk_gt(e, N, K, b1, masks=m1, pre="a_"), mk_gt(e, M, K, b2, masks=m2, pre="b_")
    sa, sb = snap(e, a), snap(e, b)
    r = a + b
    e.prove(e.eq(e.len(r), N + M), "len")
    cat_rows(e, r, [(sa, N), (sb, M)], "sum")
    e.prove(dict(r._format) == sa["_format"], "format")
    e.prove(r.get_sh_degree() == DEGREE[K], "degree")
    if not m1 and not m2:
        e.prove(r.masks is None, "no-masks")
    elif m1 and m2 and ncols(m1) != ncols(m2):
        if r.masks is not None:
            e.prove(e.eq(e.shape(r.masks)[0], N + M), "masks:count")
    else:
        L = ncols(m1 or m2)
        e.prove(r.masks is not None, "masks-carried")
        sm = e.shape(r.masks)
        e.prove(e.eq(sm[0], N + M), "masks:count")
        e.prove(len(sm) == 1 and L == 1 or len(sm) == 2 and int(sm[1]) == L, "masks:layers")
        fm = e.freeze(r.masks)

        def at(m, i, l):
            return e.get(m, i, l) if len(e.shape(m)) == 2 else e.get(m, i)
        e.forall((N, L), lambda i, l: e.eq(at(fm, i, l), at(sa["masks"], i, l) if m1 else False), "masks:first")
        e.forall((M, L), lambda i, l: e.eq(at(fm, N + i, l), at(sb["masks"], i, l) if m2 else False), "masks:second")
        want = sa["mask_names"] if m1 else sb["mask_names"]
        e.prove(list(r.mask_names or []) == list(want), "mask-names")
    same_t(e, a, sa, "left")
    same_t(e, b, sb, "right")


@scenario("C18", lambda t: [dict(K=K, base=b) for K in (0, 8) for b in (False, True)], trials=3, torch=True)
def sum_builtin(e, K, base):
    items, ps = [], []
    for k in range(3):
        N = e.dim(f"N{k}")
        x = mk_gt(e, N, K, base, masks=2, pre=f"p{k}_")
        items.append(x)
        ps.append((snap(e, x), N))
    r = sum(items)
    cat_rows(e, r, ps, "part", masks=True)
    e.prove(r.mask_names == ps[0][0]["mask_names"], "mask-names")


@scenario("C18", lambda t: [dict(K1=a, K2=b, base=bb) for a in KS for b in KS if a != b for bb in (False, True)], trials=2, torch=True)
def reject_degree(e, K1, K2, base):
    N, M = e.dim("N"), e.dim("M")
    a, b = mk_gt(e, N, K1, base, pre="a_"), mk_gt(e, M, K2, base, pre="b_")
    sa, sb = snap(e, a), snap(e, b)
    r, err = e.attempt(lambda: a + b)
    e.prove(isinstance(err, ValueError), "refused")
    same_t(e, a, sa, "left")
    same_t(e, b, sb, "right")


@scenario("C18", lambda t: [dict(K=K, base=bb, diff=d) for K in (0, 8) for bb in (False, True) for d in DIFFS], trials=2, torch=True)
def reject_format(e, K, base, diff):
    N, M = e.dim("N"), e.dim("M")
    a, b = mk_gt(e, N, K, base, pre="a_"), mk_gt(e, M, K, base, pre="b_")
    f = fmt(e, K, "linear" if diff in ("scales", "both") else "ply", "linear" if diff in ("opacities", "both") else "ply", "rgb" if diff == "sh0" else "sh")
    b = b.with_format(scales=f["scales"], opacities=f["opacities"], sh0=f["sh0"])
    r, err = e.attempt(lambda: a + b)
    e.prove(isinstance(err, ValueError), "refused")


# ---------------------------------------------------------------- mask layers
@scenario("C18", lambda t: [dict(st=s, kind=k, named=n, form=f) for s in STATES for k, f in (("bool", "np"), ("bool", "torch"), ("uint8", "torch"), ("int64", "np"))
                            for n in (True, False) if (n or s) and (n or k == "bool")], torch=True)
def add_layer(e, st, kind, named, form):
    N = e.dim("N")
    t = mk_gt(e, N, 0, False, masks=st, names=named)
    s = snap(e, t)
    pre = abstract(e, t)
    tt = form == "torch"
    m = e.array("new", (N,), kind, torch=tt) if kind == "bool" else e.array("new", (N,), kind, lo=0, hi=3, torch=tt)
    fm = e.freeze(m)
    t.add_mask_layer("fresh", m)
    want = {n: fn_of(e, c) for n, c in pre.items()}
    want["fresh"] = (lambda i: e.get(fm, i)) if kind == "bool" else (lambda i: e.not_(e.eq(e.get(fm, i), 0)))
    same_map(e, t, want, N, "after-add")
    e.prove(list(t.mask_names) == list(pre) + ["fresh"], "order")
    same_t(e, t, s, "data", masks=False)
    e.same_array(m, fm, "caller-mask")
    m[...] = True if kind == "bool" else 1
    same_map(e, t, want, N, "after-reuse-of-the-callers-array")


@scenario("C18", lambda t: [dict(st=s, named=n, form=f) for s in STATES for n in (True, False) if s for f in ("np", "torch")], trials=4, torch=True)
def add_rejects(e, st, named, form):
    N, M = e.dim("N"), e.dim("M")
    t = mk_gt(e, N, 0, False, masks=st, names=named)
    s = snap(e, t)
    tt = form == "torch"
    ok = e.array("ok", (N,), "bool", torch=tt)
    for n in abstract(e, t):
        r, err = e.attempt(lambda: t.add_mask_layer(n, ok))
        e.prove(isinstance(err, ValueError), "duplicate-refused")
        same_t(e, t, s, "after-duplicate")
    e.assume(e.not_(e.eq(N, M)))
    for m, what in ((e.array("bad", (M,), "bool", torch=tt), "wrong-length"), (e.array("two", (N, 1), "bool", torch=tt), "wrong-ndim")):
        r, err = e.attempt(lambda: t.add_mask_layer("fresh", m))
        e.prove(isinstance(err, ValueError), what + "-refused")
        same_t(e, t, s, "after-" + what)


@scenario("C18", lambda t: [dict(st=s, k=k) for s in STATES if s for k in range(1 if s == "1d" else s)], torch=True)
def remove_layer(e, st, k):
    N = e.dim("N")
    t = mk_gt(e, N, 0, False, masks=st)
    s = snap(e, t)
    pre = abstract(e, t)
    victim = list(pre)[k]
    t.remove_mask_layer(victim)
    want = {n: fn_of(e, c) for n, c in pre.items() if n != victim}
    same_map(e, t, want, N, "after-remove")
    e.prove(list(t.mask_names or []) == [n for n in pre if n != victim], "order")
    same_t(e, t, s, "data", masks=False)
    r, err = e.attempt(lambda: t.get_mask_layer(victim))
    e.prove(isinstance(err, ValueError), "gone")


@scenario("C18", lambda t: [dict(st=s) for s in STATES], trials=3, torch=True)
def unknown_names(e, st):
    N = e.dim("N")
    t = mk_gt(e, N, 0, False, masks=st)
    s = snap(e, t)
    for fn in (lambda: t.get_mask_layer("nope"), lambda: t.remove_mask_layer("nope"), lambda: t.combine_masks(layers=["nope"]),
               lambda: t.combine_masks(mode="xor"), lambda: t.apply_masks(layers=["nope"], inplace=True), lambda: t.apply_masks(mode="nand", inplace=True)):
        r, err = e.attempt(fn)
        e.prove(isinstance(err, ValueError), "refused")
        same_t(e, t, s, "unchanged")
    if st == 0:
        r, err = e.attempt(lambda: t.combine_masks())
        e.prove(isinstance(err, ValueError), "nothing-to-combine")


@scenario("C18", comb_cfgs, trials=3, torch=True)
def combine(e, st, mode, layers):
    N = e.dim("N")
    t = mk_gt(e, N, 0, False, masks=st)
    s = snap(e, t)
    fn = combined(e, abstract(e, t), mode, layers)
    fr = e.freeze(t.combine_masks(mode=mode, layers=layers))
    e.prove(len(e.shape(fr)) == 1, "ndim")
    e.prove(e.eq(e.shape(fr)[0], N), "length")
    e.prove(e.dtype(fr) == "bool", "dtype")
    e.forall((N,), lambda i: e.eq(e.get(fr, i), fn(i)), "combined")
    same_t(e, t, s, "original")


@scenario("C18", lambda t: [dict(c, inplace=ip, K=K, base=b) for c in comb_cfgs(t) for ip in (True, False) for K, b in ((0, True), (3, False), (15, True))
                            if t == "thorough" or c["layers"] is None or (c["st"] != 3 and K != 15)], trials=2, torch=True)
def apply(e, st, mode, layers, inplace, K, base):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, masks=st)
    s = snap(e, t)
    pre = abstract(e, t)
    fn = combined(e, pre, mode, layers)
    r = t.apply_masks(mode=mode, layers=layers, inplace=inplace)
    if inplace:
        e.prove(r is t, "same-object")
    else:
        same_t(e, t, s, "original")
    m = s["masks"]
    if len(e.shape(m)) == 1:
        vec = m
    else:
        names = list(pre)
        cols = [m[:, names.index(n)] for n in (layers or names)]
        vec = cols[0]
        for c in cols[1:]:
            vec = (vec & c) if mode == "and" else (vec | c)
    nz = e.freeze(e.torch.nonzero(vec, as_tuple=True)[0])
    cnt = e.shape(nz)[0]
    rows_t(e, r, s, cnt, lambda i: e.get(nz, i), "kept")
    e.forall((cnt,), lambda i: fn(e.get(nz, i)), "kept-are-true")
    d = r.to_gsdata()
    e.prove(e.eq(e.len(d), cnt), "derived-count")


@scenario("C18", lambda t: [dict(st=s, seq=q) for s in (0, "1d", 2) for q in ("a", "aa", "aar", "ara", "rar", "aaR", "raa")], trials=3, torch=True)
def history(e, st, seq):
    N = e.dim("N")
    t = mk_gt(e, N, 0, False, masks=st)
    model = {n: fn_of(e, c) for n, c in abstract(e, t).items()}
    for k, op in enumerate(seq):
        if op == "a":
            m = e.array(f"new{k}", (N,), "bool", torch=True)
            fm = e.freeze(m)
            t.add_mask_layer(f"n{k}", m)
            m[...] = False
            model[f"n{k}"] = lambda i, fm=fm: e.get(fm, i)
        elif model:
            v = list(model)[0 if op == "r" else -1]
            t.remove_mask_layer(v)
            del model[v]
        same_map(e, t, model, N, f"step{k}")


# ---------------------------------------------------------------- conversions
WAYS = [(False, "c"), (False, "strided"), (False, "cols"), (True, "c"), (True, "strided")]


@scenario("C18", lambda t: [dict(op=o, K=K, base=b, layout=l) for o in ("normalize", "normalize!", "to_ply_tensor", "to_ply_data") for K in (0, 3, 15) for b, l in WAYS], torch=True)
def to_ply(e, op, K, base, layout):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, layout, masks=2, f="linear", ranges=dict(scales=(-1, 200), opacities=(-1, 2)))
    s = snap(e, t)
    D = e.mod("gsply.gsdata").DataFormat
    r = t.normalize(inplace=op.endswith("!")) if op.startswith("normalize") else getattr(t, op)()
    e.prove((r is t) == op.endswith("!"), "same-object")
    e.prove(e.eq(e.shape(r.scales)[0], N), "count")
    fs, fo = e.freeze(r.scales), e.freeze(r.opacities)
    e.forall((N, 3), lambda i, k: e.feq(e.get(fs, i, k), e.log(e.max(e.get(s["scales"], i, k), e.q("1e-9")))), "scales")
    e.forall((N,), lambda i: e.feq(e.get(fo, i), logit_(e, e.clip(e.get(s["opacities"], i), e.q("0.0001"), 1 - e.q("0.0001")))), "opacities")
    rest(e, r, s, ("means", "quats", "sh0", "shN"), op)
    e.prove(dict(r._format) == {**s["_format"], "scales": D.SCALES_PLY, "opacities": D.OPACITIES_PLY}, "format")
    if not op.endswith("!"):
        same_t(e, t, s, "argument")


def rest(e, r, s, fields, op):
    for n in fields + ("masks",):
        x, y = getattr(r, n), s[n]
        if n == "shN":
            x, y = norm_shn(x), norm_shn(y)
        e.same_array(x, y, f"untouched:{n}")
    e.prove(list(r.mask_names or []) == list(s["mask_names"] or []), "untouched:mask_names")


@scenario("C18", lambda t: [dict(inplace=i, K=K, base=b, layout=l) for i in (True, False) for K in (0, 3, 15) for b, l in WAYS], torch=True)
def to_linear(e, inplace, K, base, layout):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, layout, masks=2, ranges=dict(scales=(-40, 40), opacities=(-40, 40)))
    s = snap(e, t)
    D = e.mod("gsply.gsdata").DataFormat
    r = t.denormalize(inplace=inplace)
    e.prove((r is t) == inplace, "same-object")
    fs, fo = e.freeze(r.scales), e.freeze(r.opacities)
    e.forall((N, 3), lambda i, k: e.feq(e.get(fs, i, k), e.exp(e.get(s["scales"], i, k))), "scales")
    e.forall((N,), lambda i: e.feq(e.get(fo, i), sig(e, e.get(s["opacities"], i))), "opacities")
    rest(e, r, s, ("means", "quats", "sh0", "shN"), "denormalize")
    e.prove(dict(r._format) == {**s["_format"], "scales": D.SCALES_LINEAR, "opacities": D.OPACITIES_LINEAR}, "format")
    if not inplace:
        same_t(e, t, s, "argument")


@scenario("C18", lambda t: [dict(inplace=i, way=w, K=K, base=b, layout=l) for i in (True, False) for w in ("rgb", "sh") for K in (0, 3) for b, l in WAYS], torch=True)
def colour(e, inplace, way, K, base, layout):
    N = e.dim("N")
    t = mk_gt(e, N, K, base, layout, masks=1, sh0="sh" if way == "rgb" else "rgb")
    s = snap(e, t)
    D = e.mod("gsply.gsdata").DataFormat
    c0, h = e.q(C0), e.q("0.5")
    there = (lambda v: v * c0 + h) if way == "rgb" else (lambda v: (v - h) / c0)
    first, second = ("to_rgb", "to_sh") if way == "rgb" else ("to_sh", "to_rgb")
    r = getattr(t, first)(inplace=inplace)
    e.prove((r is t) == inplace, "same-object")
    f = e.freeze(r.sh0)
    e.forall((N, 3), lambda i, k: e.feq(e.get(f, i, k), there(e.get(s["sh0"], i, k))), first)
    rest(e, r, s, ("means", "scales", "quats", "opacities", "shN"), first)
    e.prove(dict(r._format) == {**s["_format"], "sh0": D.SH0_RGB if way == "rgb" else D.SH0_SH}, "format")
    if not inplace:
        same_t(e, t, s, "argument")
    g = e.freeze(getattr(r, second)(inplace=inplace).sh0)
    e.forall((N, 3), lambda i, k: e.eq(e.get(g, i, k), e.get(s["sh0"], i, k)) if e.sym else e.near(e.get(g, i, k), e.get(s["sh0"], i, k), 0.0001), second)


@scenario("C18", lambda t: [dict(K=K, op=o) for K in (0, 3) for o in ("normalize", "denormalize", "to_rgb", "to_sh")], torch=True)
def like_arrays(e, K, op):
    """the conversion of the tensors is the conversion of the arrays, up to the clamp of the latter"""
    N = e.dim("N")
    r = dict(scales=(-1, 50), opacities=(-1, 2)) if op == "normalize" else dict(scales=(-15, 9), opacities=(-8, 8))
    gs = mk_gs(e, N, K, True, f="linear" if op == "normalize" else "ply", sh0="rgb" if op == "to_sh" else "sh", ranges=r)
    t = getattr(GT(e).from_gsdata(gs.copy(), device="cpu"), op)()
    x, y = snap(e, t), snap(e, getattr(gs, op)())
    for f in FIELDS:
        if f == "quats" and op == "denormalize" or (f == "shN" and not K):
            continue
        w = width(K, f)
        lo, hi = ("0.0001", 100) if (f, op) == ("scales", "denormalize") else (None, None)
        e.forall((N,) + w, lambda i, *k: e.feq(e.get(x[f], i, *k) if lo is None else e.clip(e.get(x[f], i, *k), e.q(lo), e.q(hi)), e.get(y[f], i, *k)), f)
    e.prove(x["_format"] == y["_format"], "format")


# ---------------------------------------------------------------- everything derived after an edit
EDITS = ["none", "elem", "inplace", "attr:means", "attr:scales", "attr:quats", "attr:opacities", "attr:sh0", "attr:shN", "shN-none", "attr-all", "normalize", "denormalize",
         "to_rgb", "rgb-roundtrip", "apply_masks", "add_layer", "remove_layer", "masks", "slice-view", "mask-select", "retag", "twice", "slice-attr", "copy-format"]
RANGES = {"scales": (-4, 1), "opacities": (-5, 5)}
LIN = {"scales": ("0.001", 2), "opacities": ("0.01", "0.99")}


def edited(e, K, base, edit):
    N = e.dim("N")
    lin = edit == "normalize"
    t = mk_gt(e, N, K, base, masks=2, f="linear" if lin else "ply", ranges=LIN if lin else RANGES)
    n = e.len(t)

    def new(f, pre="new_"):
        lo, hi = RANGES.get(f, (None, None))
        return e.array(pre + f, (n,) + width(K, f), "float32", lo=lo, hi=hi, torch=True)
    if edit == "elem":
        k = e.integer("k")
        e.assume(k < N)
        v = e.real("v", -1, 1)
        t.means[k, 1] = v
        t.opacities[k] = v
        t.quats[k] = v
        t.scales[k, 0] = v
        t.sh0[k, 2] = v
        if K:
            t.shN[k, K - 1, 1] = v
    elif edit == "inplace":
        t.means *= 2
        t.sh0 += 1
        t.quats -= t.quats[:, :1].clone()
        t.scales.clamp_(-1, 1)
        if K:
            t.shN.mul_(-1)
        t.opacities /= 2
    elif edit.startswith("attr:"):
        f = edit[5:] if edit != "attr:shN" or K else "sh0"
        setattr(t, f, new(f))
    elif edit == "attr-all":
        for f in FIELDS:
            if f != "shN" or K:
                setattr(t, f, new(f))
    elif edit == "shN-none":
        t.shN = None
    elif edit in ("normalize", "denormalize", "to_rgb"):
        getattr(t, edit)(inplace=True)
    elif edit == "rgb-roundtrip":
        t.to_rgb(inplace=True)
        t.sh0[...] = 0.25
        t.to_sh(inplace=True)
    elif edit == "apply_masks":
        t.apply_masks(inplace=True)
    elif edit == "add_layer":
        t.add_mask_layer("extra", e.array("extra", (n,), "bool", torch=True))
    elif edit == "remove_layer":
        t.remove_mask_layer("m0")
    elif edit == "masks":
        t.masks = e.array("new_masks", (n, 2), "bool", torch=True)
    elif edit == "slice-view":
        t[1:].means[...] = 5
        t[:2].opacities[...] = 1
    elif edit == "mask-select":
        t = t[e.array("selkey", (n,), "bool", torch=True)]
        t.means[...] = 5
    elif edit == "slice-attr":
        t = t[1:]
        n = e.len(t)
        t.scales = new("scales")
        t = t[:3]
    elif edit == "retag":
        t = t.with_format(sh0=fmt(e, K, sh0="rgb")["sh0"])
    elif edit == "copy-format":
        t.copy_format_from(mk_gs(e, 1, K, True, pre="o_", f="linear", sh0="rgb"))
    elif edit == "twice":
        t.means = new("means")
        t.means[...] = 2
        t.quats = new("quats")
        t = t.consolidate()
        t.opacities[...] = 1
        t.sh0 = new("sh0")
    return t


def cfgs(t):
    return [dict(K=K, base=b, edit=ed) for K in (KS if t == "thorough" else (0, 3)) for b in (False, True) for ed in EDITS]


@scenario("C18", cfgs, trials=3, torch=True)
def derived(e, K, base, edit):
    t = edited(e, K, base, edit)
    s = snap(e, t)
    n = e.len(t)
    same_t(e, t.clone(), s, "clone")
    rows_t(e, t[1:], s, e.max(n - 1, 0), lambda i: i + 1, "slice")
    rows_t(e, t[::2], s, (n + 1) // 2, lambda i: 2 * i, "step")
    same_t(e, t.consolidate(), s, "consolidate")
    same_t(e, t.to("cpu"), s, "moved")
    d = t.to_dict()
    for f, x in zip(FIELDS, t.unpack()):
        y = norm_shn(s[f]) if f == "shN" else s[f]
        e.same_array(norm_shn(x) if f == "shN" else x, y, f"unpack:{f}")
        e.same_array(norm_shn(d[f]) if f == "shN" else d[f], y, f"dict:{f}")
    from .common import same
    same(e, t.to_gsdata(), s, "array")
    m = e.array("key", (n,), "bool", torch=True)
    nz = e.freeze(e.torch.nonzero(m, as_tuple=True)[0])
    rows_t(e, t[m], s, e.shape(nz)[0], lambda i: e.get(nz, i), "mask")
    same_t(e, t, s, "itself")


@scenario("C18", cfgs, trials=3, torch=True)
def derived_sum(e, K, base, edit):
    t = edited(e, K, base, edit)
    s = snap(e, t)
    n = e.len(t)
    cat_rows(e, t + t, [(s, n), (s, n)], "sum")
    u = t.double()
    for f in FIELDS:
        x, y = getattr(u, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        if y is None:
            e.prove(x is None, "double:presence")
            continue
        e.same_array(x.to(dtype=e.torch.float32), y, f"double:{f}")
    same_t(e, t, s, "itself")


@scenario("C18", lambda t: [dict(K=K, base=b, edit=ed) for K in (KS if t == "thorough" else (0, 3)) for b in (False, True) for ed in
                            ("elem", "inplace", "attr:means", "attr-all", "denormalize", "apply_masks", "rgb-roundtrip", "shN-none", "twice")], trials=3, torch=True)
def saved(e, K, base, edit):
    """the file written equals the file of a container built afresh from the values shown"""
    t = edited(e, K, base, edit)
    s = snap(e, t)
    ref = e.mod("gsply.torch.gstensor").GSTensor(**{f: s[f] for f in FIELDS}, masks=s["masks"], mask_names=s["mask_names"], _format=dict(s["_format"]))
    t.save(e.path("a.ply"), compressed=False)
    ref.save(e.path("b.ply"), compressed=False)
    e.same_bytes(e.file_bytes(e.path("a.ply")), e.file_bytes(e.path("b.ply")), "file")
    same_t(e, t, s, "itself")
