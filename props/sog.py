"""SOG bundles: construction, and the value the format defines for every Gaussian."""
KS = (0, 3, 8, 15)
DEG = {0: 0, 3: 1, 8: 2, 15: 3}
KINDS = ("bytes", "sog", "folder")


def grid(e, name, n, fits=True):
    """(height, width) of a texture; fits: it has a texel for each of the n Gaussians"""
    W = e.dim(name + "_w", lo=1, hi=None if e.sym else 40)
    if e.sym:
        H = e.dim(name + "_h", lo=1)
    else:
        need = -(-int(n) // W)
        H = max(1, need + e.pick(name + "_more", (0, 0, 1, 3) if fits else (-1, -2, -9)))
    e.assume(e.ge(H * W, n) if fits else e.lt(H * W, n))
    return H, W


class Image:
    def __init__(self, e, name, H, W, ch):
        self.e, self.H, self.W = e, H, W
        self.bytes, self.a = e.image(name, H, W, ch)
        self.f = e.freeze(self.a)
        self.ch = int(e.shape(self.a)[2])

    def __call__(self, i, c):
        """channel c of texel i in row-major order; a texture without alpha is opaque"""
        if c == 3 and self.ch == 3:
            return 255
        return self.e.get(self.f, i // self.W, i % self.W, c)


def reals(e, name, n, lo, hi):
    return [e.real(f"{name}{k}", lo, hi) for k in range(n)]


class Bundle:
    """an arbitrary consistent bundle; attributes can be changed before load()"""

    def __init__(self, e, K, version, ch=4, N=None, L=None, sizes=None, bands=None):
        self.e, self.K, self.v = e, K, version
        self.N = N = e.dim("N") if N is None else N
        s = sizes or {}

        def im(name):
            return Image(e, name, *(s.get(name) or grid(e, name, N)), ch)
        self.lo, self.hi, self.rot, self.sc, self.col = (im(x) for x in ("lo", "hi", "rot", "sc", "col"))
        self.mins, self.maxs = reals(e, "mn", 3, -6, 6), reals(e, "mx", 3, -6, 6)
        self.files = {"a.webp": self.lo.bytes, "b.webp": self.hi.bytes, "c.webp": self.rot.bytes, "d.webp": self.sc.bytes, "e.webp": self.col.bytes}
        m = dict(means=dict(mins=list(self.mins), maxs=list(self.maxs), files=["a.webp", "b.webp"]), quats=dict(files=["c.webp"]),
                 scales=dict(files=["d.webp"]), sh0=dict(files=["e.webp"]))
        if version == 2:
            m["version"] = 2
            m["count"] = N
            self.scb = e.array("scbook", (256 if L is None else L["sc"],), "float32")
            self.ccb = e.array("ccbook", (256 if L is None else L["col"],), "float32")
            m["scales"]["codebook"], m["sh0"]["codebook"] = self.scb, self.ccb
        else:
            m["means"]["shape"] = [N, 3]
            self.smn, self.smx = reals(e, "smn", 3, -9, 4), reals(e, "smx", 3, -9, 4)
            self.cmn, self.cmx = reals(e, "cmn", 4, -3, 3), reals(e, "cmx", 4, -3, 3)
            m["scales"].update(mins=list(self.smn), maxs=list(self.smx))
            m["sh0"].update(mins=list(self.cmn), maxs=list(self.cmx))
        if K:
            self.labels = im("lab")
            H = e.dim("cen_h", lo=1, hi=None if e.sym else 6)
            H, W = s.get("cen") or (H, 64 * K)
            self.cen = Image(e, "cen", H, W, ch)
            self.files.update({"f.webp": self.cen.bytes, "g.webp": self.labels.bytes})
            if version == 2:
                self.P = s.get("palette")
                if self.P is None:
                    self.P = e.dim("palette", hi=None if e.sym else 64 * int(H))
                    e.assume(e.le(self.P, 64 * H))
                self.shb = e.array("shbook", (256 if L is None else L["sh"],), "float32")
                m["shN"] = dict(count=self.P, bands=DEG[K], codebook=self.shb, files=["f.webp", "g.webp"])
            else:
                self.P = 64 * H
                self.hmn, self.hmx = reals(e, "hmn", 1, -2, 2)[0], reals(e, "hmx", 1, -2, 2)[0]
                m["shN"] = dict(shape=[N, K], mins=self.hmn, maxs=self.hmx, files=["f.webp", "g.webp"])
        self.meta = m

    def load(self, kind="bytes"):
        e = self.e
        return e.attempt(e.mod("gsply.sog_reader").sogread, e.bundle(self.meta, self.files, kind))

    # ------------------------------------------------------------- the format's values
    def mean(self, i, k):
        e = self.e
        q = self.lo(i, k) + 256 * self.hi(i, k)
        rng = self.maxs[k] - self.mins[k]
        rng = e.ite(e.eq(rng, 0), e.q(1), rng)
        v = self.mins[k] + rng * (q * (e.q(1) / 65535))
        a = e.exp(e.abs(v)) - 1
        return e.ite(e.lt(v, 0), 0 - a, a)

    def quat(self, i):
        """component -> value; the largest is given by its square"""
        e = self.e
        tag = self.rot(i, 3)
        if not e.truth(e.ge(tag, 252)):
            return None, [e.q(0), e.q(0), e.q(0), e.q(1)], None
        h = e.q(1) / e.sqrt(2)
        v = [(self.rot(i, k) * e.q(1) / 255 * 2 - 1) * h for k in range(3)]
        for big in range(4):
            if e.truth(e.eq(tag - 252, big)):
                d = 1 - (v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
                return big, v[:big] + [None] + v[big:], d
        return None, [], None

    def lin(self, b, mn, mx):
        e = self.e
        return mn + b * (e.q(1) / 255) * (mx - mn)

    def scale(self, i, k):
        if self.v == 2:
            return self.e.get(self.scb, self.sc(i, k))
        return self.lin(self.sc(i, k), self.smn[k], self.smx[k])

    def colour(self, i, k):
        if self.v == 2:
            return self.e.get(self.ccb, self.col(i, k))
        return self.lin(self.col(i, k), self.cmn[k], self.cmx[k])

    def opacity(self, i):
        e = self.e
        if self.v == 3:
            return self.lin(self.col(i, 3), self.cmn[3], self.cmx[3])
        y = self.col(i, 3) * e.q(1) / 255
        y = e.min(1 - e.q("1e-6"), e.max(e.q("1e-6"), y))
        return e.log(y / (1 - y))

    def sh(self, i, j, c):
        e, K = self.e, self.K
        label = self.labels(i, 0) + 256 * self.labels(i, 1)
        if not e.truth(e.lt(label, self.P)):
            return e.q(0)
        t = self.cen((label // 64) * (64 * K) + (label % 64) * K + j, c)
        return e.get(self.shb, t) if self.v == 2 else self.lin(t, self.hmn, self.hmx)
