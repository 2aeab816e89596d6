"""numpy look-alike module over symbolic arrays (only what exact semantics are given for)."""
import types
from fractions import Fraction

from . import arrays as A
from .arrays import ALL_DTYPES, Arr, DType, as_dtype
from .core import (CTX, SV, SymB, Unsupported, band, bnot, bor_, choose, ieq, ile, ilt, is_num, is_z, isub, kind_of, lift_int, raw,
                   rawb, uexp, ulog, uother, usqrt)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr) and not x.torch


class ndarray(metaclass=_NdMeta):
    pass


class _IntegerMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SV) and x.kind == "i" and x.dt is not None


class integer(metaclass=_IntegerMeta):
    pass


class _FloatingMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SV) and x.kind == "r" and x.dt is not None


class floating(metaclass=_FloatingMeta):
    pass


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(raw(x) for x in s)
    return (raw(s),)


def _checkdims(s):
    for x in s:
        if isinstance(x, int):
            if x < 0:
                raise ValueError("negative dimensions are not allowed")
        else:
            from .core import nonneg, mark_nonneg, entails
            if not nonneg(x):
                if not bool(SymB(ile(0, x))):
                    raise ValueError("negative dimensions are not allowed")
                mark_nonneg(x)
    return s


def empty(shape, dtype=None, order="C", like=None):
    s = _checkdims(_shape(shape))
    return A.uf_array(CTX.fresh_name("uninit"), s, as_dtype(dtype) or A.float64)


def full(shape, v, dtype=None, order="C"):
    s = _checkdims(_shape(shape))
    v = v._vc_scalar() if isinstance(v, Arr) else v
    dt = as_dtype(dtype) or A.to_arr(v)._dtype
    c = A.cast_scalar(v, dt)
    return Arr.from_fn(s, dt, lambda idx: c)


def zeros(shape, dtype=None, order="C"):
    return full(shape, 0, dtype or A.float64)


def ones(shape, dtype=None, order="C"):
    return full(shape, 1, dtype or A.float64)


def _like(a, dtype):
    return as_dtype(dtype) or a._dtype


def empty_like(a, dtype=None, **k):
    return empty(a.shape, _like(A.to_arr(a), dtype))


def zeros_like(a, dtype=None, **k):
    return zeros(a.shape, _like(A.to_arr(a), dtype))


def ones_like(a, dtype=None, **k):
    return ones(a.shape, _like(A.to_arr(a), dtype))


def full_like(a, v, dtype=None, **k):
    return full(a.shape, v, _like(A.to_arr(a), dtype))


def asarray(x, dtype=None, order=None, **k):
    dt = as_dtype(dtype)
    if isinstance(x, Arr) and x.torch:
        x = x.numpy()
    return A.to_arr(x, dt, Arr)


def array(x, dtype=None, copy=True, **k):
    r = asarray(x, dtype)
    return A.materialise(r) if r is x and copy else r


def ascontiguousarray(x, dtype=None):
    dt = as_dtype(dtype)
    x = asarray(x)
    if dt is not None and x._dtype != dt:
        return A.materialise(x, dt)
    c = x.contig_cond()
    if c is True or (c is not False and bool(SymB(c))):
        return x
    return A.materialise(x)


def asfortranarray(x, dtype=None):
    raise Unsupported("asfortranarray")


def require(x, *a, **k):
    raise Unsupported("require")


def _un(f, dt=None):
    def g(x, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        if isinstance(x, (list, tuple)):
            x = A.to_arr(x)
        if isinstance(x, Arr):
            d = dt or (x._dtype if x._dtype.kindc == "f" else A.float64)
            r = A.unop(x, f, d)
        else:
            r = f(x)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return g


exp = _un(uexp)
log = _un(ulog)
sqrt = _un(usqrt)


def _same(f):
    def g(x, out=None, **k):
        if isinstance(x, Arr):
            r = A.unop(x, f)
        else:
            r = f(x)
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return g


absolute = abs_ = _same(lambda v: abs(v))
negative = _same(lambda v: -v)
square = _same(lambda v: v * v)


def _ffloor(v):
    if not isinstance(v, SV):
        import math
        return Fraction(math.floor(v))
    if v.kind == "i":
        return v
    import z3
    from .core import mk
    return mk(z3.ToReal(z3.ToInt(v.t)), "r")


def _fceil(v):
    return -_ffloor(-v)


def _frint(v):
    from .core import mk, zreal
    r = A.rint(v)
    return mk(zreal(r), "r") if isinstance(r, SV) else Fraction(r)


floor = _same(_ffloor)
ceil = _same(_fceil)
rint = _same(_frint)


def around(x, decimals=0, out=None):
    if decimals:
        raise Unsupported("round decimals")
    return rint(x, out)


round_ = around


def _bin(op, f=None):
    def g(a, b, out=None, where=True, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        if isinstance(a, (list, tuple)):
            a = A.to_arr(a)
        if isinstance(b, (list, tuple)):
            b = A.to_arr(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if f is not None:
                r = A.elementwise(f, [a, b], A.op_dtype("+", a, b), type(a) if isinstance(a, Arr) else type(b))
            else:
                r = A.binop(op, a, b)
        else:
            r = f(a, b) if f is not None else A.OPS[op](a, b)
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return g


minimum = _bin("min", A.smin)
maximum = _bin("max", A.smax)
fmin, fmax = minimum, maximum
add, subtract, multiply, divide, true_divide = _bin("+"), _bin("-"), _bin("*"), _bin("/"), _bin("/")
floor_divide = _bin("//")
left_shift, right_shift, bitwise_and, bitwise_or = _bin("<<"), _bin(">>"), _bin("&"), _bin("|")
equal, not_equal, less, less_equal, greater, greater_equal = _bin("=="), _bin("!="), _bin("<"), _bin("<="), _bin(">"), _bin(">=")


def _logic(f):
    def g(a, b, out=None, **k):
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = A.elementwise(lambda x, y: SymB(f(rawb(x), rawb(y))), [a, b], A.bool_)
        else:
            r = SymB(f(rawb(a), rawb(b)))
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r

    def reduce(arr, axis=0, **k):
        return A.reduce_(arr, "all" if f is band else "any", axis)
    g.reduce = reduce
    return g


logical_and = _logic(band)
logical_or = _logic(bor_)


def logical_not(a):
    if isinstance(a, Arr):
        return A.unop(a, lambda v: SymB(bnot(rawb(v))), A.bool_)
    return SymB(bnot(rawb(a)))


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if isinstance(a, (list, tuple)):
        a = A.to_arr(a)
    return A.clip(a, lo, hi, out)


def where(c, *ab):
    if not ab:
        return (nonzero1(c),)
    return A.where(c, *ab)


def nonzero1(c):
    if not isinstance(c, Arr) or c.ndim != 1:
        raise Unsupported("where/nonzero on n-d")
    if c._dtype.kindc != "b":
        c = A.unop(c, lambda v: v != 0, A.bool_)
    s = A.selection_of(c)
    from .core import mk
    return Arr.from_fn((s.count,), A.int64, lambda idx: mk(s(idx[0]), "i"))


def nonzero(c):
    return (nonzero1(c),)


def flatnonzero(c):
    return nonzero1(c if c.ndim == 1 else A.reshape(c, (-1,)))


def concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = list(arrs)
    if out is not None:
        A.setitem(out, Ellipsis, A.concatenate(arrs, axis))
        return out
    return A.concatenate(arrs, axis, as_dtype(dtype))


def stack(arrs, axis=0, **k):
    return A.stack(list(arrs), axis)


def column_stack(arrs):
    out = []
    for a in arrs:
        a = asarray(a)
        if a.ndim < 2:
            a = A.reshape(a, (a._shape[0], 1)) if a.ndim else A.reshape(a, (1, 1))
        out.append(a)
    return A.concatenate(out, 1)


def hstack(arrs):
    arrs = [asarray(a) for a in arrs]
    return A.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    arrs = [asarray(a) for a in arrs]
    arrs = [A.expand_dims(a, 0) if a.ndim == 1 else a for a in arrs]
    return A.concatenate(arrs, 0)


def _red(op):
    def g(a, axis=None, out=None, keepdims=False, dtype=None, **k):
        if isinstance(a, (list, tuple)):
            a = A.to_arr(a)
        if not isinstance(a, Arr):
            return a
        if k.get("initial") is not None:
            raise Unsupported("initial")
        return A.reduce_(a, op, axis, keepdims)
    return g


min = amin = _red("min")
max = amax = _red("max")
sum = _red("sum")
all = _red("all")
any = _red("any")


def count_nonzero(a, **k):
    if a._dtype.kindc != "b":
        raise Unsupported("count_nonzero")
    return A.reduce_(a, "sum")


def compress(c, a, axis=None, out=None):
    return A.compress(c, a, axis)


def take(a, ix, axis=None, **k):
    return a.take(ix, axis)


def arange(*a, dtype=None, **k):
    a = [raw(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    dt = as_dtype(dtype) or A.int64
    from .core import iadd, imul, ifloordiv, entails
    if not isinstance(st, int) or st <= 0:
        raise Unsupported("arange step")
    d = isub(hi, lo)
    n = ifloordiv(iadd(d, st - 1), st)
    if isinstance(n, int):
        n = n if n > 0 else 0
    elif not (bool(SymB(ile(0, n)))):
        n = 0
    return Arr.from_fn((n,), dt, lambda idx: A.cast_scalar(lift_int(iadd(lo, imul(st, idx[0]))), dt))


def isscalar(x):
    return is_num(x) or isinstance(x, (str, bytes))


def ndim(x):
    return x.ndim if isinstance(x, Arr) else 0


def shape(x):
    return x.shape if isinstance(x, Arr) else ()


def transpose(a, axes=None):
    return a.transpose(*(axes or ()))


def reshape(a, s, **k):
    return a.reshape(s)


def ravel(a):
    return a.ravel()


def expand_dims(a, ax):
    return A.expand_dims(a, ax)


def squeeze(a, axis=None):
    return a.squeeze(axis)


def copy(a, **k):
    return A.materialise(asarray(a))


def copyto(dst, src, **k):
    if k:
        raise Unsupported("copyto where")
    A.setitem(dst, Ellipsis, src)


def broadcast_to(a, s):
    s = _shape(s)
    a = asarray(a)
    m = A.broadcast_map(a._shape, s)
    src = a.snapshot()
    return Arr.from_fn(s, a._dtype, lambda idx: src(m(idx)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not A.dim_eq(x, y):
            return False
    return A.reduce_(A.binop("==", a, b), "all")


def shares_memory(a, b, *r):
    if a.buf is not b.buf:
        return False
    raise Unsupported("shares_memory")


may_share_memory = shares_memory


def isfinite(x):
    if isinstance(x, Arr):
        return A.unop(x, lambda v: True, A.bool_)
    return True


def isnan(x):
    if isinstance(x, Arr):
        return A.unop(x, lambda v: False, A.bool_)
    return False


isinf = isnan


def frombuffer(b, dtype=None, count=-1, offset=0):
    from . import fakeio
    return fakeio.frombuffer(b, as_dtype(dtype) or A.float64, count, offset)


def fromfile(f, dtype=None, count=-1, sep="", offset=0):
    from . import fakeio
    return fakeio.fromfile(f, as_dtype(dtype) or A.float64, count, sep, offset)


def result_type(*a):
    r = None
    for x in a:
        d = x._dtype if isinstance(x, Arr) else as_dtype(x)
        r = d if r is None else A.promote(r, d)
    return r


def issubdtype(a, b):
    a = as_dtype(a)
    if b is integer:
        return a.kindc in "iu"
    if b is floating:
        return a.kindc == "f"
    return a == b


class _Iinfo:
    def __init__(self, d):
        d = as_dtype(d)
        self.min, self.max = d.lo, d.hi


class _Linalg:
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Unsupported("norm order")
        s = A.reduce_(A.binop("*", x, x), "sum", axis, keepdims)
        return sqrt(s)


class _Random:
    def __getattr__(self, n):
        raise Unsupported("random numbers")


def make():
    m = types.ModuleType("numpy")
    g = globals()
    for k in ("ndarray integer floating empty full zeros ones empty_like zeros_like ones_like full_like asarray array "
              "ascontiguousarray asfortranarray require exp log sqrt absolute negative square floor ceil rint around minimum maximum fmin fmax "
              "add subtract multiply divide true_divide floor_divide left_shift right_shift bitwise_and bitwise_or equal "
              "not_equal less less_equal greater greater_equal logical_and logical_or logical_not clip where nonzero "
              "flatnonzero concatenate stack column_stack hstack vstack min amin max amax sum all any count_nonzero compress "
              "take arange isscalar ndim shape transpose reshape ravel expand_dims squeeze copy copyto broadcast_to "
              "array_equal shares_memory may_share_memory isfinite isnan isinf frombuffer fromfile result_type issubdtype").split():
        setattr(m, k, g[k])
    m.abs = abs_
    m.round = around
    for n, d in ALL_DTYPES.items():
        setattr(m, n if n != "bool" else "bool_", d)
    m.bool = A.bool_
    m.intp = A.int64
    m.int_ = A.int64
    m.dtype = lambda d: as_dtype(d)
    m.iinfo = _Iinfo
    m.newaxis = None
    m.inf = float("inf")
    m.nan = float("nan")
    from fractions import Fraction as Fr
    import math
    m.pi = Fr(math.pi)
    m.e = Fr(math.e)
    m.linalg = _Linalg()
    m.random = _Random()

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"numpy.{name}")
    m.__getattr__ = missing
    t = types.ModuleType("numpy.typing")

    class _NDA:
        def __class_getitem__(cls, k):
            return cls
    t.NDArray = _NDA
    t.ArrayLike = _NDA
    m.typing = t
    return m, t
