"""Families of PLY headers, written down from the two supported layouts."""
from . import codec
from .common import NPROPS

KS = (0, 3, 8, 15)


def vprops(K):
    return ["x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2"] + [f"f_rest_{i}" for i in range(3 * K)] + \
        ["opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3"]


def lines_u(K):
    """uncompressed header; %d: vertex count"""
    return ["ply", "format binary_little_endian 1.0", "element vertex %d"] + [f"property float {n}" for n in vprops(K)] + ["end_header"]


def lines_c(K):
    """compressed header; %d: chunk, vertex (and SH) count"""
    return codec.header_fmt(K).replace("%s", "%d").rstrip("\n").split("\n")


OTHER = "other"           # stands for any name that is not one of the format's


def broken(lines, tier, body=()):
    """[(label, lines)]: headers that no longer describe the layout"""
    out = []
    props = [k for k, x in enumerate(lines) if x.startswith("property ")]
    elems = [k for k, x in enumerate(lines) if x.startswith("element ")]

    def put(label, k, *new):
        out.append((label, lines[:k] + list(new) + lines[k + 1:]))
    for n, k in enumerate(props):
        _, ty, nm = lines[k].split()
        put(f"name{n}", k, f"property {ty} {OTHER}")
        put(f"type{n}", k, f"property {dict(float='double', uint='int', uchar='uint')[ty]} {nm}")
        if n + 1 < len(props) and props[n + 1] == k + 1:
            out.append((f"swap{n}", lines[:k] + [lines[k + 1], lines[k]] + lines[k + 2:]))
        if tier == "thorough" or n % 5 == 0:
            put(f"missing{n}", k)
            put(f"doubled{n}", k, lines[k], lines[k])
            put(f"extra{n}", k, lines[k], f"property {ty} {OTHER}")
            put(f"upper{n}", k, f"property {ty} {nm.upper()}")
    put("magic", 0, "plx")
    out.append(("no-magic", lines[1:]))
    put("ascii", 1, "format ascii 1.0")
    put("big-endian", 1, "format binary_big_endian 1.0")
    put("no-format", 1)
    put("format-garbage", 1, "format")
    for n, k in enumerate(elems):
        nm = lines[k].split()[1]
        put(f"element{n}-name", k, f"element {OTHER} %d")
        put(f"element{n}-count", k, f"element {nm} many")
        put(f"element{n}-nocount", k, f"element {nm}")
        put(f"element{n}-float", k, f"element {nm} 1.5")
        put(f"element{n}-twice", k, lines[k], lines[k])
        # data of another element comes first
        put(f"element{n}-preceded", k, "element camera 1", "property float focal", lines[k])
        put(f"element{n}-preceded-empty", k, "element camera 0", lines[k])
    if len(elems) >= 2:
        blocks = [lines[a:b] for a, b in zip(elems, elems[1:] + [len(lines) - 1])]
        out.append(("reordered", lines[:elems[0]] + [x for b in blocks[::-1] for x in b] + lines[-1:]))
    if len(elems) == 3:
        # an unknown element after the vertices does not change what the vertices are
        out = [x for x in out if x[0] != "element2-name"]
    return out


def text(e, lines, *nums):
    """header text; %d are filled in order, the last number repeats"""
    t = "\n".join(lines) + "\n"
    n = t.count("%d")
    nums = list(nums) + [nums[-1]] * n if nums else []
    return e.text(t, *nums[:n])


def sizes(K, n):
    return 4 * NPROPS[K] * n


READERS = ("plyread", "load", "read_uncompressed", "read_compressed", "bytes")


def read(e, api, data, name="in.ply"):
    """-> (container or None, exception)"""
    r = e.mod("gsply.reader")
    if api == "bytes":
        return e.attempt(r.decompress_from_bytes, data)
    p = e.put_file(name, data)
    if api == "plyread":
        return e.attempt(e.mod("gsply").plyread, p)
    if api == "load":
        return e.attempt(e.mod("gsply.gsdata").GSData.load, p)
    return e.attempt(getattr(r, api), p)
