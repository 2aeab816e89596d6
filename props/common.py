"""Shared construction and comparison helpers for the contract scenarios."""

NPROPS = {0: 14, 3: 23, 8: 38, 15: 59}
DEGREE = {0: 0, 3: 1, 8: 2, 15: 3}
FIELDS = ("means", "scales", "quats", "opacities", "sh0", "shN")
# where each attribute lives in a standard row
COLS = {"means": lambda K: 0, "sh0": lambda K: 3, "opacities": lambda K: 6 + 3 * K, "scales": lambda K: 7 + 3 * K,
        "quats": lambda K: 10 + 3 * K}
C0 = "0.28209479177387814"


def fmt(e, K, scales="ply", opacities="ply", sh0="sh"):
    g = e.mod("gsply.gsdata")
    D = g.DataFormat
    return dict(scales=D.SCALES_PLY if scales == "ply" else D.SCALES_LINEAR,
                opacities=D.OPACITIES_PLY if opacities == "ply" else D.OPACITIES_LINEAR,
                sh0=D.SH0_SH if sh0 == "sh" else D.SH0_RGB,
                sh_order=[D.SH_ORDER_0, D.SH_ORDER_1, D.SH_ORDER_2, D.SH_ORDER_3][DEGREE[K]],
                means=D.MEANS_RAW, quats=D.QUATS_RAW)


def raw_fields(e, N, K, layout="c", pre="", dtype="float32", ranges=None, torch=False, shn0="none"):
    """dict of the six attribute arrays (shN None / (N,0,3) for K = 0)"""
    r = ranges or {}

    def arr(n, shape):
        lo, hi = r.get(n, (None, None))
        lay = layout
        if lay == "cols" and n == "opacities":
            lay = "strided"
        return e.array(pre + n, shape, dtype, layout=lay, lo=lo, hi=hi, torch=torch)
    d = dict(means=arr("means", (N, 3)), scales=arr("scales", (N, 3)), quats=arr("quats", (N, 4)), opacities=arr("opacities", (N,)),
             sh0=arr("sh0", (N, 3)))
    if K:
        d["shN"] = arr("shN", (N, K, 3))
    elif shn0 == "none":
        d["shN"] = None
    else:
        d["shN"] = arr("shN", (N, 0, 3))
    return d


def mk_masks(e, N, layers, pre="", torch=False):
    """layers: 0 none, '1d', or a number of columns"""
    if not layers:
        return None, None
    if layers == "1d":
        return e.array(pre + "masks", (N,), "bool", torch=torch), [pre + "m0"]
    return e.array(pre + "masks", (N, layers), "bool", torch=torch), [pre + f"m{k}" for k in range(layers)]


def mk_gs(e, N, K=0, base=False, layout="c", masks=0, pre="", f="ply", dtype="float32", ranges=None, shn0="none", sh0="sh", names=True,
          mixed=None):
    """a GSData: base=True is backed by one matrix as after loading, otherwise separate arrays"""
    g = e.mod("gsply.gsdata")
    fd = fmt(e, K, f, mixed or f, sh0)
    m, nm = mk_masks(e, N, masks, pre)
    if not names:
        nm = None
    if base:
        cols = [(COLS[n](K), {"opacities": 1, "quats": 4}.get(n, 3), lo, hi) for n, (lo, hi) in (ranges or {}).items()]
        b = e.array(pre + "base", (N, NPROPS[K]), "float32", layout=layout, cols=cols)
        return g.GSData._recreate_from_base(b, format_flag=fd, masks_array=m, mask_names=nm)
    d = raw_fields(e, N, K, layout, pre, dtype, ranges, shn0=shn0)
    return g.GSData(**d, masks=m, mask_names=nm, _format=fd)


def snap(e, gs):
    """everything the user can see of a container, frozen"""
    s = {n: e.freeze(getattr(gs, n)) for n in FIELDS}
    s["masks"] = e.freeze(gs.masks)
    s["mask_names"] = None if gs.mask_names is None else list(gs.mask_names)
    s["_format"] = dict(gs._format)
    return s


def width(K, n):
    return {"means": (3,), "scales": (3,), "quats": (4,), "opacities": (), "sh0": (3,), "shN": (K, 3)}[n]


def norm_shn(x):
    """an absent shN and one with zero bands are the same thing to a user"""
    if x is None:
        return None
    return None if int(x.shape[1]) == 0 else x


def same(e, a, s, name, fields=FIELDS, masks=True, format_=True, dtype=True, shn_strict=False):
    """container (or snapshot) a equals snapshot s"""
    def get(o, n):
        return o[n] if isinstance(o, dict) else getattr(o, n)
    for n in fields:
        x, y = get(a, n), get(s, n)
        if n == "shN" and not shn_strict:
            x, y = norm_shn(x), norm_shn(y)
        e.same_array(x, y, f"{name}:{n}", dtype=dtype)
    if masks:
        e.same_array(get(a, "masks"), get(s, "masks"), f"{name}:masks")
        x, y = get(a, "mask_names"), get(s, "mask_names")
        e.prove((x is None and y is None) or (x is not None and y is not None and list(x) == list(y)), f"{name}:mask_names")
    if format_:
        e.prove(dict(get(a, "_format")) == dict(get(s, "_format")), f"{name}:format")


def rows(e, a, s, n, index, name, fields=FIELDS, masks=True, format_=True):
    """row i of container a is row index(i) of snapshot s, for all i < n"""
    for f in fields:
        x, y = getattr(a, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        rows_array(e, x, y, n, index, f"{name}:{f}")
    if masks:
        rows_array(e, a.masks, s["masks"], n, index, f"{name}:masks")
        y = s["mask_names"]
        e.prove((a.mask_names is None and y is None) or (a.mask_names is not None and y is not None and list(a.mask_names) == list(y)),
                f"{name}:mask_names")
    if format_:
        e.prove(dict(a._format) == dict(s["_format"]), f"{name}:format")


def rows_array(e, x, y, n, index, name):
    if x is None or y is None:
        e.prove(x is None and y is None, name + ":presence")
        return
    sx, sy = e.shape(x), e.shape(y)
    if len(sx) != len(sy):
        e.prove(False, name + ":ndim")
        return
    e.prove(e.eq(sx[0], n), name + ":count")
    for k in range(1, len(sx)):
        e.prove(e.eq(sx[k], sy[k]), f"{name}:shape{k}")
    fx, fy = e.freeze(x), e.freeze(y)
    e.forall((n,) + tuple(sy[1:]), lambda i, *r: e.eq(e.get(fx, i, *r), e.get(fy, index(i), *r)), name + ":rows")


def base_field(e, K, b, n, i, *j):
    """value of attribute n of Gaussian i in a standard matrix b"""
    if n == "means":
        return e.get(b, i, j[0])
    if n == "sh0":
        return e.get(b, i, 3 + j[0])
    if n == "shN":
        return e.get(b, i, 6 + j[1] * K + j[0])
    if n == "opacities":
        return e.get(b, i, 6 + 3 * K)
    if n == "scales":
        return e.get(b, i, 7 + 3 * K + j[0])
    return e.get(b, i, 10 + 3 * K + j[0])


# ---------------------------------------------------------------- selection keys and what they mean
def slice_spec(e, start, stop, step, n):
    """Python slice semantics: (start, step, count)"""
    st = 1 if step is None else step
    pos = e.truth(st > 0)
    lo, hi = (0, n) if pos else (-1, n - 1)

    def norm(v, default):
        if v is None:
            return default
        return e.ite(v < 0, e.max(v + n, lo), e.min(v, hi))
    a = norm(start, 0 if pos else n - 1)
    b = norm(stop, n if pos else -1)
    cnt = e.ite(b > a, (b - a + st - 1) // st, 0) if pos else e.ite(a > b, (a - b - st - 1) // (0 - st), 0)
    return a, st, cnt


SLICES = ["sym:sym:None", "None:sym:None", "sym:None:2", "sym:sym:-1", "None:None:-2", "sym:sym:sym", "None:None:None"]


def mk_slice(e, spec, pre=""):
    names = ("start", "stop", "step")
    out = []
    for n, p in zip(names, spec.split(":")):
        if p == "None":
            out.append(None)
        elif p == "sym":
            v = e.int_any(pre + n)
            if n == "step":
                e.assume(e.not_(e.eq(v, 0)))
            out.append(v)
        else:
            out.append(int(p))
    return out


def mk_key(e, kind, N, spec=None):
    """-> (key, count, index function)"""
    if kind == "slice":
        a, b, c = mk_slice(e, spec)
        s, st, cnt = slice_spec(e, a, b, c, N)
        return slice(a, b, c), cnt, lambda i: s + i * st
    if kind == "mask":
        m = e.array("key", (N,), "bool")
        nz = e.np.flatnonzero(m)
        nz = e.freeze(nz)
        return m, e.shape(nz)[0], lambda i: e.get(nz, i)
    if kind == "index":
        M = e.dim("M")
        k = e.array("key", (M,), "int64", lo=-100000, hi=100000)
        if not e.sym:
            # stay in the valid range (so that valid selections are actually exercised), sometimes just outside
            over = e.over.get("array:key") or []
            keep = [(i[0], v) for i, v in over if 0 <= i[0] < M]
            k = k % max(2 * N, 1) - N
            if keep:
                for i, v in keep:
                    k[i] = v
            elif spec == "any" and M and e.rng.random() < 0.35:
                k[e.rng.randrange(M)] = e.rng.choice([-N - 1, -N - 2, -2 * N, -2 * N - 1, N, N + 1, 2 * N, 3 * N + 1])
            if spec != "any" or not keep:
                e.assume(N > 0 or M == 0)
        fk = e.freeze(k)
        return k, M, lambda i: e.ite(e.get(fk, i) < 0, e.get(fk, i) + N, e.get(fk, i))
    raise AssertionError(kind)


def cat_rows(e, r, parts, name, fields=FIELDS, masks=False):
    """container r holds the rows of parts [(snapshot, n)], one after the other"""
    off = 0
    for k, (s, n) in enumerate(parts):
        for f in fields + (("masks",) if masks else ()):
            x, y = getattr(r, f), s[f]
            if f == "shN":
                x, y = norm_shn(x), norm_shn(y)
            if x is None or y is None:
                e.prove(x is None and y is None, f"{name}{k}:{f}:presence")
                continue
            sx, sy = e.shape(x), e.shape(y)
            if len(sx) != len(sy):
                e.prove(False, f"{name}{k}:{f}:ndim")
                continue
            for d in range(1, len(sx)):
                e.prove(e.eq(sx[d], sy[d]), f"{name}{k}:{f}:shape{d}")
            fx = e.freeze(x)
            e.forall((n,) + tuple(sy[1:]), lambda i, *q: e.eq(e.get(fx, off + i, *q), e.get(y, i, *q)), f"{name}{k}:{f}:rows")
        off = off + n
    for f in fields + (("masks",) if masks else ()):
        x = getattr(r, f)
        if x is not None:
            e.prove(e.eq(e.shape(x)[0], off), f"{name}:{f}:count")
