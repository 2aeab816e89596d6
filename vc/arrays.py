"""Symbolic n-dimensional arrays: buffers, aliasing views, contiguity, element writes.

A buffer holds a total function from index tuples to scalars; a view is a pair of index maps
(view index -> buffer index, and its partial inverse), so writes through any view are seen by
every other view of the same buffer, exactly as in NumPy/torch.
"""
from fractions import Fraction

import z3

from .core import (CTX, GV, SV, NeedSequential, PathEnd, SymB, Unsupported, band, bnot, bor_, choose,
                   decide, entails, fold, fork, fresh_term, iadd, ieq, ifloordiv, ile, ilt, imod, imul, is_num, is_z,
                   isub, ite, kind_of, lift_int, mark_nonneg, mk, mk_i, mk_sv, nonneg, norm_lin,
                   norm_z, prove, raw, rawb, register_index, same, set_bound, settled, subst_b, subst_val,
                   uexp, ulog, uother, usqrt, zb, zreal)


# ---------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name, kind, size, lo=None, hi=None):
        self.name, self.kindc, self.itemsize, self.lo, self.hi = name, kind, size, lo, hi

    @property
    def kind(self):
        return {"f": "f", "i": "i", "u": "u", "b": "b"}[self.kindc]

    @property
    def type(self):
        return self

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        try:
            o = as_dtype(o)
        except (Unsupported, TypeError):
            return False
        return o is not None and self.name == o.name

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def is_floating_point(self):
        return self.kindc == "f"

    def newbyteorder(self, *a):
        raise Unsupported("byte order")

    def __call__(self, x=0):
        """np.float32(x), np.uint32(x): scalar cast."""
        if isinstance(x, Arr):
            return x.astype(self)
        return cast_scalar(x, self)

    # typing look-alikes
    def __class_getitem__(cls, k):
        return cls

    def __or__(self, o):
        return self

    __ror__ = __or__


float32 = DType("float32", "f", 4)
float64 = DType("float64", "f", 8)
float16 = DType("float16", "f", 2)
uint8 = DType("uint8", "u", 1, 0, 2 ** 8 - 1)
uint16 = DType("uint16", "u", 2, 0, 2 ** 16 - 1)
uint32 = DType("uint32", "u", 4, 0, 2 ** 32 - 1)
uint64 = DType("uint64", "u", 8, 0, 2 ** 64 - 1)
int8 = DType("int8", "i", 1, -2 ** 7, 2 ** 7 - 1)
int16 = DType("int16", "i", 2, -2 ** 15, 2 ** 15 - 1)
int32 = DType("int32", "i", 4, -2 ** 31, 2 ** 31 - 1)
int64 = DType("int64", "i", 8, -2 ** 63, 2 ** 63 - 1)
bool_ = DType("bool", "b", 1)
ALL_DTYPES = {d.name: d for d in (float32, float64, float16, uint8, uint16, uint32, uint64, int8, int16, int32, int64, bool_)}


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d
    from . import vbuiltins as vb
    if d is float or d is vb.VFloat:
        return float64
    if d is int or d is vb.VInt:
        return int64
    if d is bool or d is vb.VBool:
        return bool_
    if isinstance(d, str):
        s = d.lstrip("<=|")
        short = {"f4": "float32", "f8": "float64", "u1": "uint8", "u2": "uint16", "u4": "uint32", "i4": "int32",
                 "i8": "int64", "?": "bool", "f2": "float16"}
        s = short.get(s, s)
        if s in ALL_DTYPES:
            return ALL_DTYPES[s]
    if hasattr(d, "_vc_dtype"):
        return d._vc_dtype
    raise Unsupported(f"dtype {d!r}")


def cast_obligation(v, dt, what):
    """v (int value) must be representable in integer dtype dt."""
    if not CTX.check_casts:
        return
    t = raw(v)
    g = band(ile(dt.lo, t), ile(t, dt.hi))
    prove(g, f"range:{what}:{dt.name}")


def cast_scalar(v, dt):
    """Value conversion; machine rounding between float widths is treated as identity."""
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = v.at(())
        else:
            raise Unsupported("scalar cast of array")
    from .core import token_value
    if isinstance(v, str):
        tv = token_value(v)
        v = tv if tv is not None else Fraction(v)
    if hasattr(v, "_vc_scalar"):
        v = v._vc_scalar()
    k = kind_of(v)
    if dt.kindc == "f":
        if isinstance(v, float):
            return v
        if k == "r":
            return v
        if isinstance(v, SV):
            return mk(zreal(v), "r")
        return Fraction(int(v))
    if dt.kindc == "b":
        return SymB(rawb(v))
    # integer target
    if k == "r":
        if isinstance(v, (Fraction, float)):
            v = int(v)
        else:
            t = v.t
            # C truncation toward zero
            e = z3.ToInt(t) if entails(t >= 0) else z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
            v = mk(e, "i")
            if isinstance(v, SV):
                if entails(v.t >= 0):
                    mark_nonneg(v.t)
    elif k == "b":
        v = mk_i(raw(v)) if isinstance(v, SV) else int(v)
    if not isinstance(v, SV):
        v = int(v)
        if dt.lo is not None and not (dt.lo <= v <= dt.hi):
            if dt.kindc == "u":
                return v % (dt.hi + 1)
            m = (v - dt.lo) % (dt.hi - dt.lo + 1)
            return m + dt.lo
        return v
    if v.wrap:
        if v.shr:
            return v
        if dt.name in ("uint32",):
            return SV(v.t, "i", bits=v.bits)
        return v          # int32 -> int64 keeps the signed value
    if dt.name in ("uint64", "int64"):
        return v
    t = raw(v)
    if entails(band(ile(dt.lo, t), ile(t, dt.hi))):
        return v
    if dt.name == "int32" and entails(band(ile(0, t), ile(t, 2 ** 32 - 1))):
        return SV(norm_z(t), "i", bits=v.bits, wrap=True)
    cast_obligation(v, dt, "cast")
    # wrap-around semantics
    n = dt.hi - dt.lo + 1
    if dt.kindc == "u":
        return mk(t % n, "i")
    return mk((t - dt.lo) % n + dt.lo, "i")


def promote(a, b):
    if a is b:
        return a
    if a.kindc == "b":
        return b
    if b.kindc == "b":
        return a
    if a.kindc == "f" or b.kindc == "f":
        if a.kindc == "f" and b.kindc == "f":
            return a if a.itemsize >= b.itemsize else b
        f, i = (a, b) if a.kindc == "f" else (b, a)
        if i.itemsize <= 2 and f.itemsize >= 4:
            return f
        return float64 if f.itemsize >= 4 and i.itemsize >= 4 else f
    if a.kindc == b.kindc:
        return a if a.itemsize >= b.itemsize else b
    u, s = (a, b) if a.kindc == "u" else (b, a)
    if s.itemsize > u.itemsize:
        return s
    return {1: int16, 2: int32, 4: int64, 8: float64}[u.itemsize]


# ---------------------------------------------------------------- buffers and views
class Buf:
    count = 0

    def __init__(self, shape, dtype, fn, name=""):
        Buf.count += 1
        self.id = Buf.count
        self.shape = tuple(shape)
        self.dtype = dtype
        self.fn = fn
        self.name = name
        self.version = 0
        self.writeable = True

    def write(self, condfn, valfn):
        """cells idx with condfn(idx) get valfn(idx)."""
        if not self.writeable:
            raise ValueError("assignment destination is read-only")
        old = self.fn
        if CTX.undo is not None and self not in CTX.undo:
            CTX.undo[self] = (self.fn, self.version)
        self.version += 1
        if CTX.write_log is not None:
            CTX.write_log.append((self, condfn, valfn))

        def fn(idx, old=old, condfn=condfn, valfn=valfn):
            c = condfn(idx)
            if c is False:
                return old(idx)
            if c is True:
                return valfn(idx)
            return lazy_ite(c, lambda: valfn(idx), lambda: old(idx))
        self.fn = fn


def lazy_ite(c, a, b):
    if CTX.no_fork:
        return ite(c, a(), b())
    if entails(c):
        return a()
    if entails(bnot(c)):
        return b()
    x, y = a(), b()
    if same(x, y):
        return x
    return x if fork(c) else y


def cells(idx):
    return tuple(fold(i) if is_z(i) else i for i in idx)


class Flags:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, k):
        if k in ("C_CONTIGUOUS", "C", "CONTIGUOUS"):
            return SymB(self.arr.contig_cond())
        if k in ("WRITEABLE", "W"):
            return self.arr.buf.writeable
        if k == "OWNDATA":
            return self.arr.base is None
        if k in ("F_CONTIGUOUS", "F"):
            return SymB(self.arr.contig_cond(forder=True))
        raise Unsupported(f"flag {k}")

    @property
    def c_contiguous(self):
        return self["C_CONTIGUOUS"]

    @property
    def writeable(self):
        return self.arr.buf.writeable

    @writeable.setter
    def writeable(self, v):
        raise Unsupported("setflags")

    @property
    def owndata(self):
        return self.arr.base is None


def c_strides(shape):
    st = [1] * len(shape)
    for k in range(len(shape) - 2, -1, -1):
        st[k] = imul(st[k + 1], shape[k + 1])
    return tuple(st)


def prod(shape):
    r = 1
    for s in shape:
        r = imul(r, s)
    return r


def read_cell(fn, b):
    """fn(b); an element of a deferred computation is computed once per path"""
    if CTX.read_log is not None or CTX.merging or CTX.path is None:
        return fn(b)
    memo = CTX.path.__dict__.setdefault("cells", {})
    key = (id(fn), bool(CTX.no_fork), tuple(x.get_id() if is_z(x) else ("i", x) for x in b))
    m = memo.get(key)
    if m is None:
        m = memo[key] = (fn(b), fn, b)
    return m[0]


class Arr:
    """numpy.ndarray look-alike over symbolic contents."""

    __array_priority__ = 1000
    torch = False

    def __init__(self, buf, shape, fwd=None, inv=None, strides=None, dtype=None, base=None):
        self.buf = buf
        self._shape = tuple(shape)
        self.fwd = fwd or (lambda idx: idx)
        self.inv = inv or (lambda idx: (True, idx))
        self._strides = c_strides(buf.shape) if strides is None else tuple(strides)
        self._dtype = dtype or buf.dtype
        self.base = base

    # -- construction helpers
    def _new(self, buf, shape, fwd=None, inv=None, strides=None, base=None):
        return type(self)(buf, shape, fwd, inv, strides, None, base)

    def _view(self, shape, fwd, inv, strides):
        """fwd: new idx -> self idx; inv: self idx -> (cond, new idx)."""
        sf, si = self.fwd, self.inv

        def f(idx):
            return sf(fwd(idx))

        def g(bidx):
            c, vi = si(bidx)
            if c is False:
                return False, None
            c2, ni = inv(vi)
            return band(c, c2), ni
        a = self._new(self.buf, shape, f, g, strides, base=self.base if self.base is not None else self)
        a._post_view(self)
        return a

    def _post_view(self, src):
        pass

    @classmethod
    def from_fn(cls, shape, dtype, fn, name=""):
        b = Buf(shape, dtype, fn, name)
        return cls(b, shape)

    # -- basic attributes
    @property
    def shape(self):
        return tuple(lift_int(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    @property
    def size(self):
        return lift_int(prod(self._shape))

    @property
    def nbytes(self):
        return self.size * self._dtype.itemsize

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def strides(self):
        return tuple(lift_int(imul(s, self._dtype.itemsize)) for s in self._strides)

    @property
    def flags(self):
        return Flags(self)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return FlatIter(self)

    @property
    def real(self):
        return self

    def _vc_len(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return lift_int(self._shape[0])

    def __len__(self):
        n = self._vc_len()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a symbolic array")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over symbolic axis")
        for i in range(n):
            yield self[i]

    def __hash__(self):
        return id(self)

    def __bool__(self):
        n = self.size
        if isinstance(n, int):
            if n == 1:
                return bool(self.at((0,) * self.ndim))
            if n == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        raise Unsupported("truth value of symbolic array")

    def __repr__(self):
        return f"Arr<{self._dtype.name} {self._shape}>"

    def __format__(self, spec):
        return "<array>"

    def _vc_scalar(self):
        if self.ndim == 0 or (isinstance(self.size, int) and self.size == 1):
            return self.at((0,) * self.ndim)
        raise Unsupported("array used as scalar")

    def __float__(self):
        v = self._vc_scalar()
        return v

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self._vc_scalar()

    def tolist(self):
        if self.ndim == 0:
            return self.at(())
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported("tolist of symbolic array")
        return [self[i].tolist() if self.ndim > 1 else self.at((i,)) for i in range(n)]

    # -- element access (raw index tuple, in range)
    def at(self, idx):
        b = cells(self.fwd(tuple(idx)))
        v = read_cell(self.buf.fn, b)
        if CTX.read_log is not None:
            CTX.read_log.append((self.buf, b))
        return v

    def set_at(self, idx, v):
        idx = cells(idx)
        inv = self.inv
        v = store_cast(v, self._dtype, self.buf)

        def cond(b, inv=inv, idx=idx):
            c, vi = inv(b)
            if c is False:
                return False
            cs = [c] + [ieq(x, y) for x, y in zip(vi, idx)]
            return band(*cs)
        self.buf.write(cond, lambda b, v=v: v)

    def snapshot(self):
        """Contents now, as a function (not affected by later writes)."""
        buf, fn, fwd = self.buf, self.buf.fn, self.fwd

        def get(idx):
            b = cells(fwd(tuple(idx)))
            if CTX.read_log is not None:
                CTX.read_log.append((buf, b))
            return read_cell(fn, b)
        return get

    def lazy(self):
        """(fn) reading the contents as of now, for deferred evaluation."""
        return self.snapshot()

    # -- contiguity
    def contig_cond(self, forder=False):
        """numpy's C_CONTIGUOUS condition as a raw bool."""
        conds = []
        exp = 1
        rng = range(self.ndim) if forder else range(self.ndim - 1, -1, -1)
        for k in rng:
            s = self._shape[k]
            conds.append(bor_(ieq(s, 1), ieq(self._strides[k], exp)))
            exp = imul(exp, s)
        empty = bor_(*[ieq(s, 0) for s in self._shape])
        return bor_(empty, band(*conds))

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # -- arithmetic
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    def __rmul__(self, o):
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __rfloordiv__(self, o):
        return binop("//", o, self)

    def __mod__(self, o):
        return binop("%", self, o)

    def __pow__(self, o):
        return binop("**", self, o)

    def __lshift__(self, o):
        return binop("<<", self, o)

    def __rshift__(self, o):
        return binop(">>", self, o)

    def __and__(self, o):
        return binop("&", self, o)

    def __rand__(self, o):
        return binop("&", o, self)

    def __or__(self, o):
        return binop("|", self, o)

    def __ror__(self, o):
        return binop("|", o, self)

    def __xor__(self, o):
        return binop("^", self, o)

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    def __eq__(self, o):
        if o is None:
            return False
        return binop("==", self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return binop("!=", self, o)

    def __neg__(self):
        return unop(self, lambda v: -v)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop(self, lambda v: abs(v))

    def __invert__(self):
        return unop(self, lambda v: (not v) if isinstance(v, bool) else ~v)

    def _iop(self, op, o):
        r = binop(op, self, o)
        if self._dtype.kindc != "f" and r._dtype.kindc == "f":
            raise TypeError("Cannot cast ufunc output from float to integer")
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._iop("+", o)

    def __isub__(self, o):
        return self._iop("-", o)

    def __imul__(self, o):
        return self._iop("*", o)

    def __itruediv__(self, o):
        return self._iop("/", o)

    def __iand__(self, o):
        return self._iop("&", o)

    def __ior__(self, o):
        return self._iop("|", o)

    # -- methods
    def copy(self, order="C"):
        return materialise(self)

    def __copy__(self):
        return materialise(self)

    def __deepcopy__(self, memo):
        return materialise(self)

    def fill(self, v):
        setitem(self, Ellipsis, v)

    def astype(self, dt, copy=True, order=None, casting=None):
        dt = as_dtype(dt)
        if dt == self._dtype and not copy:
            return self
        return materialise(self, dt)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order != "C":
            raise Unsupported("reshape order")
        return reshape(self, shape)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return materialise(reshape(self, (-1,)))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(int(a) % self.ndim for a in axes)
        return permute(self, axes)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        ax[a], ax[b] = ax[b], ax[a]
        return permute(self, tuple(ax))

    def squeeze(self, axis=None):
        r = self
        ax = range(self.ndim - 1, -1, -1) if axis is None else [axis % self.ndim]
        for k in ax:
            c = ieq(self._shape[k], 1)
            if c is True or (c is not False and bool(SymB(c))):
                key = [slice(None)] * r.ndim
                key[k] = 0
                r = getitem(r, tuple(key))
            elif axis is not None:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        return r

    def view(self, dt=None):
        if dt is None:
            return self[...]
        dt = as_dtype(dt)
        if dt == self._dtype:
            return self[...]
        raise Unsupported("dtype view")

    def min(self, axis=None, **kw):
        return reduce_(self, "min", axis, **kw)

    def max(self, axis=None, **kw):
        return reduce_(self, "max", axis, **kw)

    def sum(self, axis=None, **kw):
        return reduce_(self, "sum", axis, **kw)

    def all(self, axis=None, **kw):
        return reduce_(self, "all", axis, **kw)

    def any(self, axis=None, **kw):
        return reduce_(self, "any", axis, **kw)

    def mean(self, axis=None, **kw):
        raise Unsupported("mean")

    def clip(self, lo=None, hi=None, out=None):
        return clip(self, lo, hi, out=out)

    def take(self, ix, axis=None, **kw):
        if axis is None:
            return getitem(reshape(self, (-1,)), ix)
        key = [slice(None)] * self.ndim
        key[axis] = ix
        return getitem(self, tuple(key))

    def compress(self, cond, axis=None):
        return compress(cond, self, axis)

    def nonzero(self):
        raise Unsupported("nonzero")

    def repeat(self, n, axis=None):
        raise Unsupported("repeat")

    def tobytes(self, order="C"):
        from . import fakeio
        return fakeio.array_bytes(self)

    def tofile(self, f, sep="", format="%s"):
        from . import fakeio
        if sep:
            raise Unsupported("text tofile")
        f.write(fakeio.array_bytes(self))

    def setflags(self, write=None, **kw):
        if write is not None:
            if self.base is not None and not write:
                raise Unsupported("setflags on a view")
            self.buf.writeable = bool(write)

    def dot(self, o):
        raise Unsupported("dot")

    def argmax(self, axis=None):
        raise Unsupported("argmax")


class FlatIter:
    """x.flat: C-order linear view."""

    def __init__(self, arr):
        self.arr = arr
        a = arr
        shape = a._shape
        st = c_strides(shape)

        def fwd(idx):
            i = idx[0]
            return unflatten(i, shape)

        def inv(vi):
            return True, (flatten_idx(vi, shape),)
        self.v = a._view((prod(shape),), fwd, inv, (0,))

    def __getitem__(self, k):
        return getitem(self.v, k)

    def __setitem__(self, k, v):
        setitem(self.v, k, v)


def flatten_idx(idx, shape):
    f = 0
    for i, s in zip(idx, shape):
        f = iadd(imul(f, s), i)
    return f


def unflatten(f, shape):
    """C-order flat index -> index tuple (f in range)."""
    nt = [k for k, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    if len(nt) <= 1:
        return tuple(f if (nt and k == nt[0]) else 0 for k in range(len(shape)))
    out = [0] * len(shape)
    rem = f
    for k in range(len(shape) - 1, 0, -1):
        s = shape[k]
        out[k] = imod(rem, s)
        rem = ifloordiv(rem, s)
    out[0] = rem
    return tuple(out)


def store_cast(v, dt, buf=None):
    if isinstance(v, Arr):
        v = v._vc_scalar()
    return cast_scalar(v, dt)


def materialise(a, dt=None):
    """Fresh C-ordered copy."""
    dt = dt or a._dtype
    src = a.snapshot()
    sdt = a._dtype

    def fn(idx):
        v = src(idx)
        return v if dt is sdt else cast_scalar(v, dt)
    r = type(a).from_fn(a._shape, dt, fn)
    r._post_copy(a) if hasattr(r, "_post_copy") else None
    return r


# ---------------------------------------------------------------- symbolic element functions
INT_UFS = {}      # integer inputs: function id -> (function, dtype)


def uf_array(name, shape, dtype, cls=Arr, dims=None):
    """Input array: contents are an uninterpreted function of the index."""
    nd = len(shape)
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "u": z3.IntSort(), "b": z3.BoolSort()}[dtype.kindc]
    f = z3.Function(name, *([z3.IntSort()] * nd), sort) if nd else z3.Const(name, sort)
    kind = {"f": "r", "i": "i", "u": "i", "b": "b"}[dtype.kindc]

    ranged = nd and dtype.kindc in "ui" and dtype.lo is not None and dtype.itemsize <= 4
    if ranged:
        INT_UFS[f.get_id()] = (f, dtype)

    def fn(idx):
        t = f(*[norm_z(i) for i in idx]) if nd else f
        if ranged:
            in_range(t, dtype)
        return mk(t, kind)
    a = cls.from_fn(shape, dtype, fn, name)
    a.buf.uf = f
    return a


def in_range(t, dtype):
    """the element read is within its type's range"""
    key = t.get_id()
    done = CTX.path.__dict__.setdefault("ranged", {})
    if key not in done:
        done[key] = t
        if dtype.lo == 0:
            mark_nonneg(t)
            CTX.path.__dict__.setdefault("upper", {})[key] = (t, Fraction(dtype.hi))
        CTX.ghost_range(t, dtype)


def ranges_within(v):
    """the same for every element of an integer input that a value obtained by substitution mentions"""
    ufs = INT_UFS
    if not ufs or not isinstance(v, SV) and not is_z(v):
        return v
    seen = CTX.path.__dict__.setdefault("range_seen", {})
    todo = [v.t if isinstance(v, SV) else v]
    while todo:
        t = todo.pop()
        if not z3.is_expr(t):
            continue
        k = t.get_id()
        if k in seen:
            continue
        seen[k] = t
        if z3.is_app(t):
            todo.extend(t.children())
            h = ufs.get(t.decl().get_id()) if t.num_args() else None
            if h is not None:
                in_range(t, h[1])
    return v


def _ghost_range(t, dtype):
    """assume the dtype's range for an element of an integer array"""
    p = CTX.path
    c = z3.And(t >= dtype.lo, t <= dtype.hi)
    p.__dict__.setdefault("range_ids", {})[c.get_id()] = c
    p.pc.append(c)
    p.solver.add(c)
    if CTX.loop_vars:
        # range facts hold for every index; they are needed after generalisation as well
        pass
    return True


type(CTX).ghost_range = lambda self, t, d: _ghost_range(t, d)


# ---------------------------------------------------------------- indexing
def norm_index(i, n, where):
    """Index i on an axis of extent n -> raw in-range index (numpy rules), or raises IndexError.

    Inside compiled kernels (no bounds checks) an obligation is generated instead."""
    i = raw(i)
    if CTX.kernel:
        from .core import prove as _prove
        if not nonneg(i) or (isinstance(i, int) and i < 0):
            c = ilt(i, 0)
            if c is True:
                i = iadd(i, n)
            elif c is not False:
                if not entails(bnot(c)):
                    if fork(c):
                        i = iadd(i, n)
        if CTX.check_bounds:
            g = band(ile(0, i) if not nonneg(i) else True, ilt(i, n))
            if g is not True:
                _prove(g, f"bounds:{CTX.kernel[-1]}:{where}")
            else:
                from .core import CTX as C
                C.stats["bounds_triv"] = C.stats.get("bounds_triv", 0) + 1
        return i
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError("index out of bounds")
        return i + n if i < 0 else i
    c = ilt(i, 0)
    if c is True or (c is not False and bool(SymB(c))):
        i = iadd(i, n)
        if not bool(SymB(ile(0, i))):
            raise IndexError("index out of bounds")
    else:
        if not bool(SymB(ilt(i, n))):
            raise IndexError("index out of bounds")
    return i


def slice_bounds(s, n):
    """-> (start, step, length) raw, numpy/python semantics."""
    return _slice_full(s, n)[:3]


def _slice_full(s, n):
    step = 1 if s.step is None else raw(s.step)
    if not isinstance(step, int):
        # symbolic step: split on sign, keep it symbolic
        if bool(SymB(ieq(step, 0))):
            raise ValueError("slice step cannot be zero")
        pos = bool(SymB(ilt(0, step)))
    else:
        if step == 0:
            raise ValueError("slice step cannot be zero")
        pos = step > 0

    def norm(v, default):
        if v is None:
            return default
        v = raw(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
                if v < 0:
                    return 0 if pos else -1
            elif v >= n:
                return n if pos else n - 1
            return v
        c = ilt(v, 0)
        if c is True or (c is not False and not nonneg(v) and bool(SymB(c))):
            v = iadd(v, n)
            if bool(SymB(ilt(v, 0))):
                return 0 if pos else -1
            return v
        if bool(SymB(ile(n, v))):
            return n if pos else isub(n, 1)
        return v
    start = norm(s.start, 0 if pos else isub(n, 1))
    stop = norm(s.stop, n if pos else -1)
    if pos:
        d = isub(stop, start)
        if isinstance(step, int) and step == 1:
            ln = d
        elif isinstance(d, int) and isinstance(step, int):
            ln = (d + step - 1) // step
        else:
            ln = ifloordiv(iadd(d, isub(step, 1)), step)
    else:
        d = isub(start, stop)
        m = isub(0, step)
        if isinstance(m, int) and m == 1:
            ln = d
        elif isinstance(d, int) and isinstance(m, int):
            ln = (d + m - 1) // m
        else:
            ln = ifloordiv(iadd(d, isub(m, 1)), m)
    if isinstance(d, int):
        if d <= 0:
            ln = 0
    elif nonneg(d):
        pass
    else:
        if not bool(SymB(ilt(0, d))):
            ln = 0
    if is_z(ln):
        mark_nonneg(ln)
    return start, step, ln, stop


def is_boolmask(k):
    return isinstance(k, Arr) and k._dtype.kindc == "b"


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0 and k._dtype.kindc != "b") for k in key):
        return fancy_get(a, key)
    key = tuple(k._vc_scalar() if isinstance(k, Arr) else k for k in key)
    # expand ellipsis
    nidx = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        e = [n for n, k in enumerate(key) if k is Ellipsis][0]
        key = key[:e] + (slice(None),) * (a.ndim - nidx) + key[e + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nidx)
    nidx = sum(1 for k in key if k is not None)
    if nidx > a.ndim:
        raise IndexError("too many indices for array")
    spec = []        # per source axis: ('c', idx) or ('s', start, step, newaxis position)
    shape, strides = [], []
    ax = 0
    newpos = []
    for k in key:
        if k is None:
            shape.append(1)
            strides.append(0)
            newpos.append(len(shape) - 1)
            continue
        n = a._shape[ax]
        st = a._strides[ax] if a._strides is not None else None
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                start, step, ln = 0, 1, n
            else:
                start, step, ln = slice_bounds(k, n)
            spec.append(("s", start, step, len(shape), ln))
            shape.append(ln)
            strides.append(imul(st, step))
        elif is_num(k) or is_z(k) or hasattr(k, "_vc_scalar"):
            if isinstance(k, (bool,)) or (isinstance(k, SV) and k.kind == "b"):
                raise Unsupported("boolean scalar index")
            if isinstance(k, Fraction) or (isinstance(k, SV) and k.kind == "r"):
                raise IndexError("only integers, slices are valid indices")
            spec.append(("c", norm_index(k, n, f"{a.buf.name or 'arr'}[axis{ax}]")))
        else:
            raise IndexError("only integers, slices (`:`), ellipsis, None and arrays are valid indices")
        ax += 1
    if not shape and a.ndim == len([s for s in spec if s[0] == "c"]):
        idx = tuple(s[1] for s in spec)
        if a.torch:
            return a._scalar_view(idx)
        v = a.at(idx)
        if CTX.load_log is not None:
            CTX.load_log.append(v)
        return v

    def fwd(idx):
        out = []
        for s in spec:
            if s[0] == "c":
                out.append(s[1])
            else:
                out.append(iadd(s[1], imul(s[2], idx[s[3]])))
        return tuple(out)
    nshape = tuple(shape)

    def inv(si):
        cs = []
        out = [0] * len(nshape)
        for s, i in zip(spec, si):
            if s[0] == "c":
                cs.append(ieq(i, s[1]))
            else:
                _, start, step, pos, ln = s
                d = isub(i, start)
                if isinstance(step, int) and step == 1:
                    if not (isinstance(start, int) and start == 0 and same_dim(ln, i, a, s)):
                        if not nonneg(d):
                            cs.append(ile(0, d))
                        cs.append(ilt(d, ln))
                    out[pos] = d
                else:
                    if isinstance(step, int) and step < 0:
                        d2, st2 = isub(start, i), -step
                    elif isinstance(step, int):
                        d2, st2 = d, step
                    else:
                        pos_step = entails(ilt(0, step))
                        d2, st2 = (d, step) if pos_step else (isub(start, i), isub(0, step))
                    if not (isinstance(st2, int) and st2 == 1):
                        cs.append(ieq(imod(d2, st2), 0))
                    q = ifloordiv(d2, st2)
                    cs.append(ile(0, d2))
                    cs.append(ilt(q, ln))
                    out[pos] = q
        return band(*cs), tuple(out)
    return a._view(nshape, fwd, inv, strides)


def same_dim(ln, i, a, s):
    """full-range slice: no condition needed (index i is in range of the source axis)."""
    # find the axis this spec belongs to by extent identity
    for n in a._shape:
        if (isinstance(n, int) and isinstance(ln, int) and n == ln) or (is_z(n) and is_z(ln) and n.eq(ln)):
            return True
    return False


def setitem(a, key, val):
    if not a.buf.writeable:
        raise ValueError("assignment destination is read-only")
    if isinstance(key, tuple) and any(isinstance(k, (Arr, list)) for k in key) or isinstance(key, (Arr, list)):
        return fancy_set(a, key, val)
    if not isinstance(key, tuple):
        key = (key,)
    nidx = sum(1 for k in key if k is not None and k is not Ellipsis)
    if nidx == a.ndim and all(is_num(k) or is_z(k) for k in key):
        idx = tuple(norm_index(k, n, f"{a.buf.name or 'arr'}[axis{ax}]:store") for ax, (k, n) in enumerate(zip(key, a._shape)))
        if isinstance(val, Arr):
            val = val._vc_scalar()
        a.set_at(idx, val)
        return
    v = getitem(a, key)
    assign(v, val)


def assign(v, val):
    """v[...] = val with broadcasting (val is read before writing)."""
    dt = v._dtype
    if isinstance(val, (list, tuple)):
        val = to_arr(val)
    if isinstance(val, Arr):
        src = val.snapshot()
        bmap = broadcast_map(val._shape, v._shape, assign=True)
        if val._dtype.kindc in "f" and dt.kindc in "ui" and dt.kindc != val._dtype.kindc and v.torch is False:
            pass

        def valfn_v(vi):
            return cast_scalar(src(bmap(vi)), dt)
    else:
        if val is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        c = cast_scalar(val, dt)

        def valfn_v(vi):
            return c
    inv = v.inv

    def cond(b):
        c, vi = inv(b)
        return c

    def valfn(b):
        c, vi = inv(b)
        return valfn_v(vi)
    v.buf.write(cond, valfn)


def dim_eq(a, b):
    """Are two extents equal?  May fork."""
    c = ieq(a, b)
    if isinstance(c, bool):
        return c
    return bool(SymB(c))


def broadcast_shapes(s1, s2):
    n = max(len(s1), len(s2))
    out = []
    for k in range(n):
        a = s1[k - n + len(s1)] if k - n + len(s1) >= 0 else 1
        b = s2[k - n + len(s2)] if k - n + len(s2) >= 0 else 1
        if isinstance(a, int) and a == 1:
            out.append(b)
        elif isinstance(b, int) and b == 1:
            out.append(a)
        elif ieq(a, b) is True:
            out.append(a)
        elif dim_eq(a, b):
            out.append(a if not isinstance(a, int) else a)
        elif dim_eq(a, 1):
            out.append(b)
        elif dim_eq(b, 1):
            out.append(a)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def broadcast_map(src, dst, assign=False):
    """index map dst idx -> src idx; raises ValueError when not broadcastable."""
    if len(src) > len(dst):
        extra = len(src) - len(dst)
        for k in range(extra):
            if not dim_eq(src[k], 1):
                raise ValueError("could not broadcast input array")
        inner = broadcast_map(src[extra:], dst, assign)
        return lambda idx: (0,) * extra + inner(idx)
    off = len(dst) - len(src)
    one = []
    for k, s in enumerate(src):
        d = dst[off + k]
        if isinstance(s, int) and s == 1:
            one.append(True)
        elif ieq(s, d) is True or dim_eq(s, d):
            one.append(False)
        elif dim_eq(s, 1):
            one.append(True)
        else:
            raise ValueError(f"could not broadcast input array from shape {src} into shape {dst}")
    return lambda idx: tuple(0 if o else idx[off + k] for k, o in enumerate(one))


def to_arr(x, dtype=None, cls=None):
    cls = cls or Arr
    if isinstance(x, Arr):
        return x if dtype is None or x._dtype == dtype else materialise(x, dtype)
    if isinstance(x, (list, tuple)):
        elems = [to_arr(e, None, cls) if isinstance(e, (list, tuple, Arr)) else e for e in x]
        if any(isinstance(e, Arr) for e in elems):
            elems = [e if isinstance(e, Arr) else to_arr(e, None, cls) for e in elems]
            return stack(elems, 0, dtype, cls)
        if dtype is None:
            ks = {kind_of(e) for e in elems}
            dtype = float64 if "r" in ks or not elems else (int64 if "i" in ks else bool_)
        vals = [cast_scalar(e, dtype) for e in elems]

        def fn(idx):
            i = idx[0]
            if isinstance(i, int):
                return vals[i]
            if len(vals) == 1:
                return vals[0]
            if not vals:
                return cast_scalar(0, dtype)
            return choose([(ieq(i, k) if k < len(vals) - 1 else True, v) for k, v in enumerate(vals)])
        return cls.from_fn((len(vals),), dtype, fn)
    if is_num(x):
        k = kind_of(x)
        dt = dtype or (x.dtype if isinstance(x, SV) else {"r": float64, "i": int64, "b": bool_}[k])
        v = cast_scalar(x, dt)
        return cls.from_fn((), dt, lambda idx: v)
    if hasattr(x, "_vc_toarr"):
        return x._vc_toarr()
    raise Unsupported(f"array from {type(x).__name__}")


# ---------------------------------------------------------------- reshape / permute
def resolve_shape(a, shape):
    shape = [raw(s) for s in shape]
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    total = prod(a._shape)
    if neg:
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        known = prod([s for k, s in enumerate(shape) if k != neg[0]])
        if isinstance(known, int) and known == 0:
            if isinstance(total, int):
                raise ValueError("cannot reshape array into shape with unknown dimension")
            raise Unsupported("reshape -1 with zero extent")
        if isinstance(known, int) and isinstance(total, int):
            if total % known:
                raise ValueError("cannot reshape array")
            shape[neg[0]] = total // known
        else:
            # cancel common symbolic factors first
            rest = [s for k, s in enumerate(shape) if k != neg[0]]
            mine = list(a._shape)
            for s in list(rest):
                for m in mine:
                    if ieq(s, m) is True:
                        rest.remove(s)
                        mine.remove(m)
                        break
            kn, tt = prod(rest), prod(mine)
            if isinstance(kn, int) and kn == 1:
                shape[neg[0]] = tt
            else:
                if is_z(known) and not nonneg(known):
                    pass
                if is_z(kn):
                    if not bool(SymB(ilt(0, kn))):
                        raise ValueError("cannot reshape array of unknown dimension")
                if ieq(imod(tt, kn), 0) is not True and not bool(SymB(ieq(imod(tt, kn), 0))):
                    raise ValueError("cannot reshape array")
                shape[neg[0]] = ifloordiv(tt, kn)
                mark_nonneg(shape[neg[0]])
        return tuple(shape)
    newt = prod(shape)
    c = ieq(total, newt)
    if c is True:
        return tuple(shape)
    if c is False or not bool(SymB(c)):
        raise ValueError(f"cannot reshape array of size {total} into shape {shape}")
    return tuple(shape)


def group_dims(old, new):
    """Match blocks of old and new dims with equal products.  None if not groupable."""
    i = j = 0
    out = []
    while i < len(old) or j < len(new):
        # skip 1s
        if i < len(old) and isinstance(old[i], int) and old[i] == 1:
            i += 1
            continue
        if j < len(new) and isinstance(new[j], int) and new[j] == 1:
            j += 1
            continue
        if i >= len(old) or j >= len(new):
            return None
        oi, nj = [i], [j]
        po, pn = old[i], new[j]
        i += 1
        j += 1
        guard = 0
        while True:
            guard += 1
            if guard > 12:
                return None
            c = ieq(po, pn)
            if c is True:
                break
            if c is not False and entails(c):
                break
            if isinstance(po, int) and isinstance(pn, int):
                if po < pn:
                    if i >= len(old):
                        return None
                    po = imul(po, old[i])
                    oi.append(i)
                    i += 1
                else:
                    if j >= len(new):
                        return None
                    pn = imul(pn, new[j])
                    nj.append(j)
                    j += 1
                continue
            # symbolic: extend whichever side can still grow; prefer new when remaining
            if len(new) - j > len(old) - i and j < len(new):
                pn = imul(pn, new[j])
                nj.append(j)
                j += 1
            elif i < len(old):
                po = imul(po, old[i])
                oi.append(i)
                i += 1
            elif j < len(new):
                pn = imul(pn, new[j])
                nj.append(j)
                j += 1
            else:
                return None
        out.append((oi, nj))
    return out


def reshape(a, shape):
    new = resolve_shape(a, shape)
    old = a._shape
    if len(new) == len(old) and all(ieq(x, y) is True for x, y in zip(old, new)):
        return a[...] if not a.torch else a._view(old, lambda i: i, lambda i: (True, i), a._strides)
    groups = group_dims(old, new)
    # is a view possible?  (numpy: within each block the merged old dims must be stride-compatible)
    view_ok = []
    strides = [None] * len(new)
    if groups is not None:
        for oi, nj in groups:
            for x, y in zip(oi, oi[1:]):
                view_ok.append(bor_(ieq(a._strides[x], imul(a._strides[y], old[y])), ieq(old[x], 1)))
        empty = bor_(*[ieq(s, 0) for s in old])
        cond = bor_(empty, band(*view_ok))
    else:
        cond = a.contig_cond()

    if groups is not None:
        def fwd(idx):
            out = [0] * len(old)
            for oi, nj in groups:
                f = flatten_idx([idx[j] for j in nj], [new[j] for j in nj])
                for k, v in zip(oi, unflatten(f, [old[i] for i in oi])):
                    out[k] = v
            return tuple(out)

        def inv(si):
            out = [0] * len(new)
            for oi, nj in groups:
                f = flatten_idx([si[i] for i in oi], [old[i] for i in oi])
                for k, v in zip(nj, unflatten(f, [new[j] for j in nj])):
                    out[k] = v
            return True, tuple(out)
        for oi, nj in groups:
            st = a._strides[oi[-1]]
            for j in reversed(nj):
                strides[j] = st
                st = imul(st, new[j])
        strides = [0 if s is None else s for s in strides]
    else:
        def fwd(idx):
            return unflatten(flatten_idx(idx, new), old)

        def inv(si):
            return True, unflatten(flatten_idx(si, old), new)
        strides = list(c_strides(new))
    if cond is True or (cond is not False and bool(SymB(cond))):
        return a._view(new, fwd, inv, strides)
    if a.torch and a._must_view:
        raise RuntimeError("view size is not compatible with input tensor's size and stride")
    src = a.snapshot()
    r = type(a).from_fn(new, a._dtype, lambda idx: src(fwd(idx)))
    if hasattr(r, "_post_copy"):
        r._post_copy(a)
    return r


def permute(a, axes):
    inv_ax = [axes.index(k) for k in range(len(axes))]
    return a._view(tuple(a._shape[k] for k in axes),
                   lambda idx: tuple(idx[inv_ax[k]] for k in range(len(axes))),
                   lambda si: (True, tuple(si[k] for k in axes)),
                   tuple(a._strides[k] for k in axes))


def expand_dims(a, ax):
    key = [slice(None)] * a.ndim
    if ax < 0:
        ax += a.ndim + 1
    key.insert(ax, None)
    return getitem(a, tuple(key))


# ---------------------------------------------------------------- selection by mask / index array
SEL = {}


class Selection:
    """The increasing enumeration of the true positions of a boolean vector."""

    def __init__(self, fn, n, tag):
        self.fn, self.n = fn, n
        self.const = None
        ms = None
        if isinstance(n, int) and n <= 16:
            CTX.no_fork += 1
            try:
                ms = [rawb(fn((q,))) for q in range(n)]
            finally:
                CTX.no_fork -= 1
            if all(isinstance(m, bool) for m in ms):
                self.const = [q for q, m in enumerate(ms) if m]
                self.count = len(self.const)
                cn = self.const

                def rank(q):
                    q = fold(q) if is_z(q) else q
                    if z3.is_int_value(q):
                        q = q.as_long()
                    if isinstance(q, int):
                        return z3.IntVal(cn.index(q)) if q in cn else z3.IntVal(0)
                    t = z3.IntVal(0)
                    for r, v in enumerate(cn):
                        t = z3.If(q == v, r, t)
                    return t
                self.rank = rank
                return
        k = CTX.fresh_name("sel")
        if CTX.loop_vars:
            raise Unsupported("compress inside a parallel loop")
        self.count = z3.Int(k + "_count")
        self.sel = z3.Function(k, z3.IntSort(), z3.IntSort())
        self.rank = z3.Function(k + "_rank", z3.IntSort(), z3.IntSort())
        mark_nonneg(self.count)
        from .core import add_lemma, assume
        assume(z3.And(self.count >= 0, self.count <= norm_z(n)))
        j, j2, p = z3.Int(k + "_j"), z3.Int(k + "_j2"), z3.Int(k + "_p")
        CTX.no_fork += 1
        try:
            mj = zb(rawb(fn((self.sel(j),))))
            mp = zb(rawb(fn((p,))))
        finally:
            CTX.no_fork -= 1
        inr = z3.And(j >= 0, j < self.count)
        add_lemma([j], z3.Implies(inr, z3.And(self.sel(j) >= 0, self.sel(j) < norm_z(n), mj, self.rank(self.sel(j)) == j)), k + ":selected")
        add_lemma([j, j2], z3.Implies(z3.And(inr, j2 >= 0, j2 < self.count, j < j2), self.sel(j) < self.sel(j2)), k + ":increasing")
        add_lemma([p], z3.Implies(z3.And(p >= 0, p < norm_z(n), mp),
                                  z3.And(self.rank(p) >= 0, self.rank(p) < self.count, self.sel(self.rank(p)) == p)), k + ":complete")
        if ms:
            assume(self.count == z3.Sum([z3.If(zb(m), 1, 0) for m in ms]))

    def __call__(self, j):
        if self.const is not None:
            if isinstance(j, int):
                return self.const[j]
            if not self.const:
                return 0
            return raw(choose([(ieq(j, q) if q < len(self.const) - 1 else True, v) for q, v in enumerate(self.const)]))
        t = self.sel(norm_z(j))
        mark_nonneg(t)
        register_index(j)
        register_index(t)
        return t


def selection_of(mask):
    """Selection object for a 1-D bool array; equal contents share one object (by content identity)."""
    n = mask._shape[0]
    snap = mask.snapshot()
    table = CTX.path.__dict__.setdefault("selections", [])
    probe = z3.Int("selprobe!")
    mark_nonneg(probe)
    CTX.no_fork += 1
    try:
        pv = rawb(snap((probe,)))
    finally:
        CTX.no_fork -= 1
    pv = zb(pv)
    for q, m, s in table:
        if ieq(m, n) is True and (q.eq(pv)):
            return s
    for q, m, s in table:
        if (ieq(m, n) is True or entails(ieq(m, n))) and entails(z3.Implies(z3.And(probe >= 0, probe < norm_z(n)), q == pv)):
            return s
    s = Selection(snap, n, "")
    table.append((pv, n, s))
    return s


def fancy_get(a, key):
    if len(key) == 1 and is_boolmask(key[0]) and key[0].ndim == a.ndim and a.ndim > 1:
        return masked_select(a, key[0])
    keys = list(key)
    if any(k is Ellipsis for k in keys):
        e = [n for n, k in enumerate(keys) if k is Ellipsis][0]
        used = sum((k.ndim if is_boolmask(k) else 1) for k in keys if k is not None and k is not Ellipsis)
        keys[e:e + 1] = [slice(None)] * (a.ndim - used)
    if any(k is None for k in keys):
        raise Unsupported("newaxis with fancy index")
    adv = [n for n, k in enumerate(keys) if isinstance(k, (Arr, list))]
    if len(adv) > 1:
        return multi_fancy_get(a, keys, adv)
    ax = adv[0]
    k = keys[ax]
    if isinstance(k, list):
        if all(isinstance(e, bool) for e in k) and k:
            k = to_arr(k, bool_)
        else:
            k = to_arr(k, None)
            if k._dtype.kindc == "f" and isinstance(k._shape[0], int) and k._shape[0] == 0:
                k = to_arr([], int64)
    # apply the basic keys first
    basic = tuple(slice(None) if n == ax else kk for n, kk in enumerate(keys))
    if any(not isinstance(b, slice) for b in basic):
        raise Unsupported("mixed integer and fancy index")
    base = a if all(b == slice(None) for b in basic) else getitem(a, basic)
    n = a._shape[ax]
    if is_boolmask(k):
        if k.ndim != 1:
            raise Unsupported("multi-dimensional mask on a prefix of axes")
        if not dim_eq(k._shape[0], n):
            raise IndexError("boolean index did not match indexed array along axis")
        s = selection_of(k)
        src = base.snapshot()
        shape = base._shape[:ax] + (s.count,) + base._shape[ax + 1:]
        r = type(a).from_fn(shape, a._dtype, lambda idx: src(idx[:ax] + (s(idx[ax]),) + idx[ax + 1:]))
        _pc(r, a)
        return r
    if k._dtype.kindc == "f":
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    ks = k.snapshot()
    check_index_range(k, n)
    src = base.snapshot()
    kn = k.ndim
    shape = base._shape[:ax] + k._shape + base._shape[ax + 1:]

    def fn(idx):
        j = raw(ks(idx[ax:ax + kn]))
        if not nonneg(j) or (isinstance(j, int) and j < 0):
            c = ilt(j, 0)
            if c is True:
                j = iadd(j, n)
            elif c is not False and not entails(bnot(c)):
                j = raw(choose([(c, lift_int(iadd(j, n))), (True, lift_int(j))]))
        register_index(j)
        return src(idx[:ax] + (j,) + idx[ax + kn:])
    r = type(a).from_fn(shape, a._dtype, fn)
    _pc(r, a)
    return r


def _pc(r, a):
    if hasattr(r, "_post_copy"):
        r._post_copy(a)


def exists_elem(shape, condfn, name="w"):
    """Fork on: exists idx in shape with cond(idx).  True path gets a witness, False path a lemma."""
    from .core import add_lemma, assume
    if all(isinstance(s, int) for s in shape):
        total = 1
        for s in shape:
            total *= s
        if total <= 64:
            from itertools import product as pr
            c = bor_(*[rawb(condfn(ix)) for ix in pr(*[range(s) for s in shape])])
            return SymB(c)
    # short axes are spelled out, only the others are quantified
    from itertools import product as pr
    small, total = [], 1
    for k in sorted((k for k, s in enumerate(shape) if isinstance(s, int)), key=lambda k: shape[k]):
        if total * shape[k] <= 16:
            total *= shape[k]
            small.append(k)
    free = [k for k in range(len(shape)) if k not in small]

    def some(vs):
        out = []
        for ix in pr(*[range(shape[k]) for k in small]):
            full = dict(zip(free, vs)) | dict(zip(small, ix))
            out.append(rawb(condfn(tuple(full[k] for k in range(len(shape))))))
        return bor_(*out)
    dims = [shape[k] for k in free]
    if decide(2) == 0:
        ws = [fresh_term(name, z3.IntSort()) for _ in dims]
        for w, s in zip(ws, dims):
            assume(z3.And(w >= 0, w < norm_z(s)))
            mark_nonneg(w)
            register_index(w)
        c = some(ws)
        if c is False:
            raise PathEnd("no witness")
        assume(c)
        if CTX.path.solver.check() == z3.unsat:
            raise PathEnd("infeasible witness")
        return True
    vs = [z3.Int(CTX.fresh_name("q")) for _ in dims]
    CTX.no_fork += 1
    try:
        for v in vs:
            mark_nonneg(v)
        body = some(vs)
    finally:
        CTX.no_fork -= 1
    rng = z3.And(*[z3.And(v >= 0, v < norm_z(s)) for v, s in zip(vs, dims)])
    add_lemma(vs, z3.Implies(rng, zb(bnot(body))), "none:" + name)
    return False


def check_index_range(k, n):
    """numpy raises IndexError when any index is outside [-n, n)."""
    ks = k.snapshot()

    def bad(ix):
        j = raw(ks(ix))
        return SymB(bor_(ilt(j, isub(0, n)), ile(n, j)))
    # already known?
    if known_in_range(k, n):
        return
    r = exists_elem(k._shape, bad, "badidx")
    if r is True or (isinstance(r, SV) and bool(r)):
        raise IndexError("index out of bounds")
    k.buf.__dict__.setdefault("ranged_for", []).append((k.buf.version, n, -1))


def known_in_range(k, n):
    probe = [z3.Int(CTX.fresh_name("ip")) for _ in k._shape]
    from .core import check_valid
    for p in probe:
        register_index(p)
        mark_nonneg(p)
    CTX.no_fork += 1
    try:
        try:
            j = raw(k.snapshot()(tuple(probe)))
        except Unsupported:
            return False
    finally:
        CTX.no_fork -= 1
    rng = [z3.And(p >= 0, p < norm_z(s)) for p, s in zip(probe, k._shape)]
    g = z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), z3.And(norm_z(j) >= -norm_z(n), norm_z(j) < norm_z(n)))
    st, _, _ = check_valid(g, timeout=2.0)
    for p in probe:
        CTX.path.iterms.pop(p.get_id(), None)
    return st == "proved"


def multi_fancy_get(a, keys, adv):
    ks = []
    for n in adv:
        k = keys[n]
        k = k if isinstance(k, Arr) else to_arr(k)
        if k._dtype.kindc == "b":
            raise Unsupported("several masks")
        ks.append(k)
    if adv != list(range(adv[0], adv[0] + len(adv))):
        raise Unsupported("non adjacent fancy indices")
    shp = ks[0]._shape
    for k in ks[1:]:
        shp = broadcast_shapes(shp, k._shape)
    basic = tuple(slice(None) if n in adv else kk for n, kk in enumerate(keys))
    base = a if all(b == slice(None) for b in basic) else getitem(a, basic)
    if any(not isinstance(b, slice) for b in basic):
        raise Unsupported("mixed integer and fancy index")
    maps = [broadcast_map(k._shape, shp) for k in ks]
    snaps = [k.snapshot() for k in ks]
    for k, n in zip(ks, adv):
        check_index_range(k, a._shape[n])
    src = base.snapshot()
    p0 = adv[0]
    m = len(shp)

    def fn(idx):
        ii = idx[p0:p0 + m]
        js = []
        for s, mp, n in zip(snaps, maps, adv):
            j = raw(s(mp(ii)))
            if not nonneg(j):
                c = ilt(j, 0)
                if c is not False and not entails(bnot(c)):
                    j = raw(choose([(c, lift_int(iadd(j, a._shape[n]))), (True, lift_int(j))]))
            js.append(j)
        return src(idx[:p0] + tuple(js) + idx[p0 + m:])
    r = type(a).from_fn(base._shape[:p0] + shp + base._shape[p0 + len(adv):], a._dtype, fn)
    _pc(r, a)
    return r


def masked_select(a, mask):
    """a[mask] with mask of the same shape: 1-D result in C order.

    Only the 'exactly c true entries in every row' case is resolved further (see MaskedRows)."""
    shape = a._shape
    last = shape[-1]
    if not isinstance(last, int) or last > 8:
        raise Unsupported("general masked select")
    return MaskedRows(a, mask)


class MaskedRows(Arr):
    """Result of a[mask] for same-shape mask; usable through reshape(..., c) when every row of
    the mask has exactly c true entries (checked at reshape)."""

    def __init__(self, a, mask):
        self.src, self.mask = a, mask
        self._dtype = a._dtype
        self.cls = type(a)
        self.torch = a.torch
        self.buf = a.buf
        self._shape = (z3.Int(CTX.fresh_name("nsel")),)
        self.base = None
        self._strides = (1,)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [raw(s) for s in shape]
        a, mask = self.src, self.mask
        lead = a._shape[:-1]
        L = a._shape[-1]
        c = shape[-1]
        if not isinstance(c, int):
            raise Unsupported("masked select reshape")
        # every row has exactly c true entries: obligation on a generic row
        ms = mask.snapshot()
        CTX.no_fork += 1
        try:
            q = [z3.Int(CTX.fresh_name("row")) for _ in lead]
            for v in q:
                mark_nonneg(v)
            row = [zb(rawb(ms(tuple(q) + (k,)))) for k in range(L)]
        finally:
            CTX.no_fork -= 1
        cnt = z3.Sum([z3.If(r, 1, 0) for r in row])
        rng = z3.And(*[z3.And(v >= 0, v < norm_z(s)) for v, s in zip(q, lead)])
        from .core import check_valid
        st, _, _ = check_valid(z3.Implies(rng, cnt == c))
        if st != "proved":
            raise Unsupported("masked select with varying row counts")
        newlead = shape[:-1]
        src = a.snapshot()

        def fn(idx):
            lin = flatten_idx(idx[:-1], newlead) if newlead != list(lead) else None
            li = idx[:-1] if lin is None else unflatten(lin, lead)
            k = idx[-1]
            if not isinstance(k, int):
                raise Unsupported("masked select symbolic column")
            # k-th true entry of the row
            opts = []
            bits = [rawb(ms(tuple(li) + (m,))) for m in range(L)]
            for m in range(L):
                before = z3.Sum([z3.If(zb(b), 1, 0) for b in bits[:m]]) if m else z3.IntVal(0)
                cond = band(bits[m], ieq(before, k) if m else (k == 0))
                opts.append((cond, src(tuple(li) + (m,))))
            opts = [(c2, v) for c2, v in opts if c2 is not False]
            opts[-1] = (True, opts[-1][1])
            return choose(opts)
        return self.cls.from_fn(tuple(shape), a._dtype, fn)

    def view(self, *shape):
        return self.reshape(*shape)


def fancy_set(a, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    keys = list(key)
    if len(keys) == 1 and is_boolmask(keys[0]):
        m = keys[0]
        nd = m.ndim
        for x, y in zip(m._shape, a._shape):
            if not dim_eq(x, y):
                raise IndexError("boolean index did not match")
        ms = m.snapshot()
        inv = a.inv
        dt = a._dtype
        if isinstance(val, Arr) and val.ndim > 0:
            s = selection_of(m) if nd == 1 else None
            if s is None:
                raise Unsupported("mask assignment of array")
            bmap = broadcast_map(val._shape, (s.count,) + a._shape[1:], assign=True)
            vs = val.snapshot()
            valf = lambda vi: cast_scalar(vs(bmap((s.rank(norm_z(vi[0])),) + vi[1:])), dt)
        else:
            v0 = val._vc_scalar() if isinstance(val, Arr) else val
            c = cast_scalar(v0, dt)
            valf = lambda vi: c

        def cond(b):
            c0, vi = inv(b)
            if c0 is False:
                return False
            return band(c0, rawb(ms(vi[:nd])))
        a.buf.write(cond, lambda b: valf(inv(b)[1]))
        return
    raise Unsupported("fancy assignment")


def compress(cond, a, axis=None):
    cond = cond if isinstance(cond, Arr) else to_arr(cond, bool_)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    if cond._dtype.kindc != "b":
        cond = unop(cond, lambda v: v != 0, bool_)
    n = a._shape[axis]
    if not dim_eq(cond._shape[0], n):
        if bool(SymB(ilt(n, cond._shape[0]))):
            raise Unsupported("compress with longer condition")
        raise Unsupported("compress with shorter condition")
    key = [slice(None)] * a.ndim
    key[axis] = cond
    return fancy_get(a, tuple(key))


# ---------------------------------------------------------------- element-wise operations
OPS = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
    "/": lambda x, y: div(x, y), "//": lambda x, y: x // y, "%": lambda x, y: x % y, "**": lambda x, y: x ** y,
    "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y, "&": lambda x, y: x & y, "|": lambda x, y: x | y,
    "^": lambda x, y: x ^ y,
    "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
    "==": lambda x, y: x == y, "!=": lambda x, y: x != y,
}
CMP = {"<", "<=", ">", ">=", "==", "!="}
INF = float("inf")


def div(x, y):
    if not isinstance(x, SV) and not isinstance(y, SV):
        if y == 0:
            raise Unsupported("concrete division by zero")
        if isinstance(x, float) or isinstance(y, float):
            return x / y
        return Fraction(x) / Fraction(y)
    return x / y


def smin(x, y):
    if isinstance(x, float):
        return y if x == INF else x
    if isinstance(y, float):
        return x if y == INF else y
    if not isinstance(x, SV) and not isinstance(y, SV):
        return x if x <= y else y
    return ite(settled(rawb(y < x)), y, x)


def smax(x, y):
    if isinstance(x, float):
        return y if x == -INF else x
    if isinstance(y, float):
        return x if y == -INF else y
    if not isinstance(x, SV) and not isinstance(y, SV):
        return x if x >= y else y
    return ite(settled(rawb(y > x)), y, x)


def op_dtype(op, a, b):
    if isinstance(a, Arr) and a.torch or isinstance(b, Arr) and b.torch:
        if isinstance(a, Arr) and isinstance(b, Arr) and a.torch != b.torch:
            raise Unsupported("operation between a tensor and an array")
        from .faketorch import t_promote
        return t_promote(op, a, b)
    if op in CMP:
        return bool_
    da = a._dtype if isinstance(a, Arr) else None
    db = b._dtype if isinstance(b, Arr) else None

    def weak(x, other):
        k = kind_of(x)
        if isinstance(x, SV) and x.dt is not None:
            return promote(x.dt, other)
        if k == "r":
            return other if other.kindc == "f" else float64
        if k == "i":
            return other if other.kindc in "fui" else int64
        return other
    if da is not None and db is not None:
        d = promote(da, db)
    elif da is not None:
        d = weak(b, da)
    else:
        d = weak(a, db)
    if op == "/" and d.kindc != "f":
        d = float64
    return d


def operand(x, cls):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        return to_arr(x, None, cls)
    return x


def binop(op, a, b):
    cls = type(a) if isinstance(a, Arr) else type(b)
    if cls is MaskedRows:
        raise Unsupported("arithmetic on masked select")
    a, b = operand(a, cls), operand(b, cls)
    if not (isinstance(a, Arr) or is_num(a)) or not (isinstance(b, Arr) or is_num(b)):
        if op == "==":
            return False
        if op == "!=":
            return True
        raise TypeError(f"unsupported operand for {op}: {type(a).__name__}, {type(b).__name__}")
    dt = op_dtype(op, a, b)
    f = OPS[op]
    return elementwise(lambda x, y: wrap_int(f(x, y), dt, op), [a, b], dt, cls)


def wrap_int(v, dt, op):
    """Fixed-width integer results (only where they can overflow)."""
    if dt.kindc in "ui" and isinstance(v, SV) and v.kind == "i" and not v.wrap and dt.itemsize <= 4 and op in ("<<", "|"):
        if dt.name == "int32":
            t = raw(v)
            if entails(band(ile(0, t), ile(t, 2 ** 31 - 1))):
                return v
            if entails(band(ile(0, t), ile(t, 2 ** 32 - 1))):
                return SV(v.t, "i", bits=v.bits, wrap=True)
            raise Unsupported("int32 overflow beyond 32 bits")
    return v


def elementwise(f, args, dt, cls=Arr):
    shape = ()
    for a in args:
        if isinstance(a, Arr):
            shape = broadcast_shapes(shape, a._shape)
    maps = []
    for a in args:
        if isinstance(a, Arr):
            maps.append((a.snapshot(), broadcast_map(a._shape, shape)))
        else:
            maps.append(None)
    consts = list(args)

    def fn(idx):
        vals = [consts[k] if m is None else m[0](m[1](idx)) for k, m in enumerate(maps)]
        return f(*vals)
    src = next(a for a in args if isinstance(a, Arr))
    r = cls.from_fn(shape, dt, fn)
    if hasattr(r, "_post_copy"):
        r._post_copy(*[a for a in args if isinstance(a, Arr)])
    if r.ndim == 0 and not cls.torch:
        return r.at(())
    return r


def unop(a, f, dt=None):
    src = a.snapshot()
    dt = dt or a._dtype
    r = type(a).from_fn(a._shape, dt, lambda idx: f(src(idx)))
    if hasattr(r, "_post_copy"):
        r._post_copy(a)
    return r


def where(c, a, b):
    cls = next((type(x) for x in (c, a, b) if isinstance(x, Arr)), None)
    if cls is None:
        return ite(rawb(c), a, b)
    a, b = operand(a, cls), operand(b, cls)
    if isinstance(a, Arr) and isinstance(b, Arr):
        dt = promote(a._dtype, b._dtype)
    elif isinstance(a, Arr) or isinstance(b, Arr):
        dt = op_dtype("+", a, b)
    else:
        dt = {"r": float64, "i": int64, "b": bool_}[max(kind_of(a), kind_of(b))]

    def f(cc, x, y):
        cc = rawb(cc)
        if CTX.no_fork or isinstance(cc, bool):
            return ite(cc, x, y)
        if isinstance(x, SV) and x.wrap or isinstance(y, SV) and y.wrap:
            return x if fork(cc) else y
        return ite(cc, x, y)
    return elementwise(f, [c, a, b], dt, cls)


def clip(a, lo=None, hi=None, out=None):
    def f(v):
        if lo is not None and not isinstance(lo, Arr):
            v = smax(v, lo)
        if hi is not None and not isinstance(hi, Arr):
            v = smin(v, hi)
        return v
    if isinstance(lo, Arr) or isinstance(hi, Arr):
        r = a
        if lo is not None:
            r = elementwise(smax, [r, lo], op_dtype("+", r, lo), type(a))
        if hi is not None:
            r = elementwise(smin, [r, hi], op_dtype("+", r, hi), type(a))
    elif not isinstance(a, Arr):
        return f(a)
    else:
        dt = a._dtype
        for b in (lo, hi):
            if b is not None:
                dt = op_dtype("+", a, b) if dt.kindc != "f" else dt
        r = unop(a, f, dt)
    if out is not None:
        setitem(out, Ellipsis, r)
        return out
    return r


def concatenate(arrs, axis=0, dtype=None):
    arrs = [to_arr(x) for x in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if axis is None:
        arrs = [reshape(a, (-1,)) for a in arrs]
        axis = 0
        nd = 1
    axis = int(axis) % nd if axis < 0 else int(axis)
    if axis >= nd:
        raise ValueError("axis out of bounds")
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match exactly")
        for k in range(nd):
            if k != axis and not dim_eq(a._shape[k], arrs[0]._shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dt = dtype
    if dt is None:
        dt = arrs[0]._dtype
        for a in arrs[1:]:
            dt = promote(dt, a._dtype)
    offs = [0]
    for a in arrs:
        offs.append(iadd(offs[-1], a._shape[axis]))
    snaps = [a.snapshot() for a in arrs]
    shape = tuple(offs[-1] if k == axis else arrs[0]._shape[k] for k in range(nd))
    for x in shape:
        if is_z(x):
            mark_nonneg(x)

    def fn(idx):
        i = idx[axis]
        opts = []
        for n, s in enumerate(snaps):
            c = True if n == len(snaps) - 1 else ilt(i, offs[n + 1])
            opts.append((c, n))
        if all(isinstance(c, bool) for c, _ in opts):
            n = next(n for c, n in opts if c)
            return cast_scalar(snaps[n](idx[:axis] + (isub(i, offs[n]),) + idx[axis + 1:]), dt)
        if CTX.no_fork:
            r = None
            for c, n in reversed(opts):
                j = isub(i, offs[n])
                v = cast_scalar(snaps[n](idx[:axis] + (j,) + idx[axis + 1:]), dt)
                r = v if r is None else ite(c, v, r)
            return r
        n = choose(opts) if len(opts) > 1 else opts[0][1]
        j = isub(i, offs[n])
        if is_z(j):
            mark_nonneg(j)
            register_index(j)
        return cast_scalar(snaps[n](idx[:axis] + (j,) + idx[axis + 1:]), dt)
    r = type(arrs[0]).from_fn(shape, dt, fn)
    if hasattr(r, "_post_copy"):
        r._post_copy(*arrs)
    return r


def stack(arrs, axis=0, dtype=None, cls=None):
    arrs = [to_arr(x, None, cls) if cls else to_arr(x) for x in arrs]
    nd = arrs[0].ndim
    ax = axis + nd + 1 if axis < 0 else axis
    for a in arrs[1:]:
        if a.ndim != nd or not all(dim_eq(x, y) for x, y in zip(a._shape, arrs[0]._shape)):
            raise ValueError("all input arrays must have the same shape")
    dt = dtype
    if dt is None:
        dt = arrs[0]._dtype
        for a in arrs[1:]:
            dt = promote(dt, a._dtype)
    snaps = [a.snapshot() for a in arrs]
    s0 = arrs[0]._shape
    shape = s0[:ax] + (len(arrs),) + s0[ax:]

    def fn(idx):
        k = idx[ax]
        rest = idx[:ax] + idx[ax + 1:]
        if isinstance(k, int):
            return cast_scalar(snaps[k](rest), dt)
        return choose([(ieq(k, n) if n < len(snaps) - 1 else True, cast_scalar(s(rest), dt)) for n, s in enumerate(snaps)])
    r = type(arrs[0]).from_fn(shape, dt, fn)
    if hasattr(r, "_post_copy"):
        r._post_copy(*arrs)
    return r


def rint(x):
    """round half to even"""
    if not isinstance(x, SV):
        return round(x)
    if x.kind == "i":
        return x
    y = zreal(x) + z3.RealVal("1/2")
    f = z3.ToInt(y)
    return mk(z3.If(z3.And(z3.ToReal(f) == y, f % 2 == 1), f - 1, f), "i")


# ---------------------------------------------------------------- reductions
def reduce_(a, op, axis=None, keepdims=False, out=None, dtype=None, initial=None, **kw):
    if out is not None or initial is not None:
        raise Unsupported("reduction with out/initial")
    if isinstance(axis, (tuple, list)):
        if len(axis) != 1:
            if set(int(x) % a.ndim for x in axis) == set(range(a.ndim)):
                axis = None
            else:
                raise Unsupported("multi-axis reduction")
        else:
            axis = axis[0]
    if axis is None:
        if a.ndim == 0:
            return a.at(())
        flat_shape = a._shape
        src = a.snapshot()
        return full_reduce(src, flat_shape, op, a)
    axis = int(axis) % a.ndim if axis < 0 else int(axis)
    n = a._shape[axis]
    src = a.snapshot()
    shape = a._shape[:axis] + ((1,) if keepdims else ()) + a._shape[axis + 1:]

    def split(idx):
        if keepdims:
            return idx[:axis], idx[axis + 1:]
        return idx[:axis], idx[axis:]
    dt = bool_ if op in ("all", "any") else a._dtype
    if isinstance(n, int) and n <= 16:
        if n == 0 and op in ("min", "max"):
            raise ValueError("zero-size array to reduction operation has no identity")

        def fn(idx):
            lo, hi = split(idx)
            vals = [src(lo + (k,) + hi) for k in range(n)]
            return fold_vals(op, vals)
        r = type(a).from_fn(shape, dt, fn)
        _pc(r, a)
        if r.ndim == 0 and not a.torch:
            return r.at(())
        return r
    return axis_reduce(a, src, op, axis, n, shape, split, dt)


def fold_vals(op, vals):
    if op == "all":
        return SymB(band(*[rawb(v) for v in vals]))
    if op == "any":
        return SymB(bor_(*[rawb(v) for v in vals]))
    if op == "sum":
        r = 0
        for v in vals:
            if isinstance(v, bool) or (isinstance(v, SV) and v.kind == "b"):
                v = lift_int(raw(v)) if isinstance(v, SV) else int(v)
            r = v + r
        return r
    r = vals[0]
    for v in vals[1:]:
        r = smin(r, v) if op == "min" else smax(r, v)
    return r


def axis_reduce(a, src, op, axis, n, shape, split, dt):
    """Reduction over a symbolic (or long) axis: a fresh function with its defining contract."""
    from .core import add_lemma
    if op not in ("min", "max", "all", "any"):
        raise Unsupported(f"{op} over symbolic axis")
    if op in ("min", "max"):
        if not (isinstance(n, int) and n > 0):
            if bool(SymB(ieq(n, 0))):
                raise ValueError("zero-size array to reduction operation has no identity")
    name = CTX.fresh_name("red_" + op)
    nd = len(shape)
    if CTX.loop_vars:
        raise Unsupported("reduction inside parallel loop")
    sort = z3.BoolSort() if dt.kindc == "b" else (z3.RealSort() if dt.kindc == "f" else z3.IntSort())
    F = z3.Function(name, *([z3.IntSort()] * nd), sort) if nd else None
    cst = z3.Const(name, sort) if not nd else None
    W = z3.Function(name + "_w", *([z3.IntSort()] * nd), z3.IntSort()) if nd else None
    cw = z3.Int(name + "_w") if not nd else None
    done = set()

    def fn(idx):
        zi = [norm_z(i) for i in idx]
        t = F(*zi) if nd else cst
        w = W(*zi) if nd else cw
        key = t.get_id()
        if key not in done:
            done.add(key)
            lo, hi = split(idx)
            k = z3.Int(CTX.fresh_name("rk"))
            mark_nonneg(k)
            mark_nonneg(w)
            set_bound(k, n) if isinstance(n, int) else None
            if isinstance(n, int):
                set_bound(w, n)
            CTX.no_fork += 1
            saved_log = CTX.read_log
            CTX.read_log = None
            try:
                from .core import assume
                gk, cond_k = guarded(src, lo + (k,) + hi)
                gw, cond_w = guarded(src, lo + (w,) + hi)
                inr = z3.And(k >= 0, k < norm_z(n))
                inw = z3.And(w >= 0, w < norm_z(n))
                if op in ("min", "max"):
                    if dt.kindc == "f":
                        le = (t <= zreal(gk)) if op == "min" else (t >= zreal(gk))
                        eqw = t == zreal(gw)
                    else:
                        le = (t <= norm_z(raw(gk))) if op == "min" else (t >= norm_z(raw(gk)))
                        eqw = t == norm_z(raw(gw))
                    if cond_k is not True:
                        # entries that are not +-inf have to exist for the result to be one of them
                        from .core import prove as _prove
                        g0, cond_0 = guarded(src, lo + (0,) + hi)
                        _prove(cond_0, f"range:{op}:some-entry-is-finite")
                    add_lemma([k], z3.Implies(z3.And(inr, zb(cond_k)), le), name + ":bound")
                    CTX.path.heavy.append(z3.And(inw, zb(cond_w), eqw))
                else:
                    bk, bw = zb(rawb(gk)), zb(rawb(gw))
                    if op == "all":
                        add_lemma([k], z3.Implies(z3.And(inr, t), bk), name + ":all")
                        CTX.path.heavy.append(z3.Implies(z3.Not(t), z3.And(inw, z3.Not(bw))))
                    else:
                        add_lemma([k], z3.Implies(z3.And(inr, bk), t), name + ":any")
                        CTX.path.heavy.append(z3.Implies(t, z3.And(inw, bw)))
                register_index(w)
            finally:
                CTX.no_fork -= 1
                CTX.read_log = saved_log
        return mk(t, {"f": "r", "b": "b"}.get(dt.kindc, "i"))
    r = type(a).from_fn(shape, dt, fn)
    _pc(r, a)
    if r.ndim == 0 and not a.torch:
        return r.at(())
    return r


def guarded(src, idx):
    """Value of a possibly +-inf-masked element: (finite value, condition that it is finite)."""
    GUARD.append([])
    try:
        v = src(idx)
    except InfBranch:
        v = None
    finally:
        g = GUARD.pop()
    if isinstance(v, GV):
        return v.v, v.c
    if v is None or isinstance(v, float):
        raise Unsupported("reduction over all-infinite values")
    return v, True


GUARD = []


class InfBranch(Exception):
    pass


def full_reduce(src, shape, op, a):
    if all(isinstance(s, int) for s in shape):
        from itertools import product as pr
        total = 1
        for s in shape:
            total *= s
        if total <= 64:
            vals = [src(ix) for ix in pr(*[range(s) for s in shape])]
            if not vals:
                if op in ("min", "max"):
                    raise ValueError("zero-size array to reduction operation has no identity")
                return {"all": True, "any": False, "sum": 0}[op]
            r = fold_vals(op, vals)
            return a._wrap_scalar(r) if a.torch else r
    from .core import add_lemma
    if op == "any":
        r = exists_elem(shape, lambda ix: SymB(rawb(src(ix))), "any")
        return r
    if op == "all":
        r = exists_elem(shape, lambda ix: SymB(bnot(rawb(src(ix)))), "notall")
        return not r if isinstance(r, bool) else SymB(bnot(rawb(r)))
    dt = a._dtype
    if op in ("min", "max"):
        if bool(SymB(ieq(prod(shape), 0))):
            raise ValueError("zero-size array to reduction operation has no identity")
        t = fresh_term("full_" + op, z3.RealSort() if dt.kindc == "f" else z3.IntSort())
        ks = [z3.Int(CTX.fresh_name("fk")) for _ in shape]
        ws = [fresh_term("fw", z3.IntSort()) for _ in shape]
        CTX.no_fork += 1
        try:
            for k in ks + ws:
                mark_nonneg(k)
            gk, gw = src(tuple(ks)), src(tuple(ws))
        finally:
            CTX.no_fork -= 1
        zz = (lambda v: zreal(v)) if dt.kindc == "f" else (lambda v: norm_z(raw(v)))
        rng = z3.And(*[z3.And(k >= 0, k < norm_z(s)) for k, s in zip(ks, shape)])
        rngw = z3.And(*[z3.And(k >= 0, k < norm_z(s)) for k, s in zip(ws, shape)])
        add_lemma(ks, z3.Implies(rng, (t <= zz(gk)) if op == "min" else (t >= zz(gk))), "full_" + op)
        CTX.path.heavy.append(z3.And(rngw, t == zz(gw)))
        for w in ws:
            register_index(w)
        return mk(t, "r" if dt.kindc == "f" else "i")
    if op == "sum":
        # only a count of a boolean array is supported: 0 <= count <= size
        if dt.kindc == "b":
            from .core import assume
            t = fresh_term("count", z3.IntSort())
            mark_nonneg(t)
            assume(z3.And(t >= 0, t <= norm_z(prod(shape))))
            ks = [z3.Int(CTX.fresh_name("ck")) for _ in shape]
            CTX.no_fork += 1
            try:
                for k in ks:
                    mark_nonneg(k)
                b = zb(rawb(src(tuple(ks))))
            finally:
                CTX.no_fork -= 1
            rng = z3.And(*[z3.And(k >= 0, k < norm_z(s)) for k, s in zip(ks, shape)])
            add_lemma(ks, z3.Implies(z3.And(rng, t == 0), z3.Not(b)), "count0")
            add_lemma(ks, z3.Implies(z3.And(rng, t == norm_z(prod(shape))), b), "countall")
            # a positive count has a counted element, an incomplete one has an element left out
            for want in (True, False):
                ws = [fresh_term("cw", z3.IntSort()) for _ in shape]
                CTX.no_fork += 1
                try:
                    for w in ws:
                        mark_nonneg(w)
                    bw = zb(rawb(src(tuple(ws))))
                finally:
                    CTX.no_fork -= 1
                rw = z3.And(*[z3.And(w >= 0, w < norm_z(s)) for w, s in zip(ws, shape)])
                if want:
                    assume(z3.Implies(t > 0, z3.And(rw, bw)))
                else:
                    assume(z3.Implies(t < norm_z(prod(shape)), z3.And(rw, z3.Not(bw))))
            return mk(t, "i")
    raise Unsupported(f"full reduction {op}")
