"""Construction and comparison of tensor containers."""
from .common import COLS, FIELDS, NPROPS, fmt, mk_masks, norm_shn, raw_fields


def mk_gt(e, N, K=0, base=False, layout="c", masks=0, pre="", f="ply", mixed=None, sh0="sh", ranges=None, names=True, shn0="none"):
    """a GSTensor: base=True is backed by one matrix as after conversion, otherwise separate tensors"""
    G = e.mod("gsply.torch.gstensor").GSTensor
    fd = fmt(e, K, f, mixed or f, sh0)
    m, nm = mk_masks(e, N, masks, pre, torch=True)
    if not names:
        nm = None
    if base:
        cols = [(COLS[n](K), {"opacities": 1, "quats": 4}.get(n, 3), lo, hi) for n, (lo, hi) in (ranges or {}).items()]
        b = e.array(pre + "base", (N, NPROPS[K]), "float32", layout=layout, cols=cols, torch=True)
        return G._recreate_from_base(b, format_flag=fd, masks_tensor=m, mask_names=nm)
    d = raw_fields(e, N, K, layout, pre, "float32", ranges, torch=True, shn0=shn0)
    return G(**d, masks=m, mask_names=nm, _format=fd)


def same_t(e, t, s, name, fields=FIELDS, masks=True, format_=True):
    """tensor container t shows the snapshot s"""
    for n in fields:
        x, y = getattr(t, n), s[n]
        if n == "shN":
            x, y = norm_shn(x), norm_shn(y)
        if x is not None:
            e.prove(e.is_tensor(x), f"{name}:{n}:tensor")
        e.same_array(x, y, f"{name}:{n}")
    if masks:
        if t.masks is not None:
            e.prove(e.is_tensor(t.masks), f"{name}:masks:tensor")
        e.same_array(t.masks, s["masks"], f"{name}:masks")
        x, y = t.mask_names, s["mask_names"]
        e.prove((x is None and y is None) or (x is not None and y is not None and list(x) == list(y)), f"{name}:mask_names")
    if format_:
        e.prove(dict(t._format) == dict(s["_format"]), f"{name}:format")


def rows_t(e, t, s, n, index, name, fields=FIELDS, masks=True, format_=True):
    """row i of tensor container t is row index(i) of snapshot s, for all i < n"""
    from .common import rows_array
    for f in fields:
        x, y = getattr(t, f), s[f]
        if f == "shN":
            x, y = norm_shn(x), norm_shn(y)
        if x is not None:
            e.prove(e.is_tensor(x), f"{name}:{f}:tensor")
        rows_array(e, x, y, n, index, f"{name}:{f}")
    if masks:
        rows_array(e, t.masks, s["masks"], n, index, f"{name}:masks")
        y = s["mask_names"]
        e.prove((t.mask_names is None and y is None) or (t.mask_names is not None and y is not None and list(t.mask_names) == list(y)), f"{name}:mask_names")
    if format_:
        e.prove(dict(t._format) == dict(s["_format"]), f"{name}:format")
