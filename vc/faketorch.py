"""torch look-alike module over symbolic tensors (CPU, eager mode; only what exact semantics are given for)."""
import builtins
import types
from fractions import Fraction

from . import arrays as A
from .arrays import ALL_DTYPES, Arr, as_dtype, to_arr
from .core import (CTX, SV, SymB, Unsupported, band, bnot, bor_, choose, ieq, ile, ilt, is_num, ite, kind_of, raw, rawb, settled, uexp, ulog,
                   usqrt)

UNSET = object()


class Device:
    def __init__(self, d="cpu", index=None):
        if isinstance(d, Device):
            d, index = d.type, d.index
        if ":" in d:
            d, index = d.split(":")
            index = int(index)
        self.type, self.index = d, index

    def __eq__(self, o):
        return isinstance(o, Device) and (o.type, o.index) == (self.type, self.index)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.type, self.index))

    def __str__(self):
        return self.type if self.index is None else f"{self.type}:{self.index}"

    __repr__ = __str__


CPU = Device("cpu")


def want_device(d):
    if d is None:
        return CPU
    d = Device(d)
    if d.type != "cpu":
        raise Unsupported(f"device {d}")
    return d


class Values(tuple):
    """result of min/max/... along a dimension"""
    def __new__(cls, values, indices=None):
        return super().__new__(cls, (values, indices))

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        if self[1] is None:
            raise Unsupported("indices of a reduction")
        return self[1]


def t_promote(op, a, b):
    """torch type promotion: tensors with dimensions > 0-d tensors > Python scalars, within a category"""
    if op in A.CMP:
        return A.bool_
    cat = {"b": 0, "i": 1, "u": 1, "f": 2}
    dim = [x._dtype for x in (a, b) if isinstance(x, Arr) and x.ndim > 0]
    zero = [x._dtype for x in (a, b) if isinstance(x, Arr) and x.ndim == 0]
    sc = [{"r": A.float32, "i": A.int64, "b": A.bool_}[kind_of(x)] for x in (a, b) if not isinstance(x, Arr)]
    d = None
    for group in (dim, zero, sc):
        if not group:
            continue
        g = group[0]
        for x in group[1:]:
            g = int_float(g, x)
        if d is None:
            d = g
        elif cat[g.kindc] > cat[d.kindc]:
            d = g
    if op == "/" and d.kindc != "f":
        d = A.float32
    return d


def int_float(x, y):
    if x.kindc == "f" and y.kindc != "f":
        return x
    if y.kindc == "f" and x.kindc != "f":
        return y
    return A.promote(x, y)


class Tensor(Arr):
    torch = True
    _must_view = False
    requires_grad = False
    is_cuda = False
    __array_priority__ = 2000

    # -- engine hooks
    def _post_view(self, src):
        self.requires_grad = src.requires_grad

    def _post_copy(self, *srcs):
        if self._dtype.kindc == "f":
            self.requires_grad = builtins.any(getattr(s, "requires_grad", False) for s in srcs)

    def _scalar_view(self, idx):
        return self._view((), lambda i, idx=idx: idx, lambda si, idx=idx: (band(*[ieq(x, y) for x, y in zip(si, idx)]), ()), ())

    def _wrap_scalar(self, r):
        return scalar(r, self._dtype)

    def __array__(self, *a, **k):
        raise Unsupported("implicit conversion of a tensor")

    # -- attributes
    @property
    def device(self):
        return CPU

    @property
    def data(self):
        return self.detach()

    @property
    def is_leaf(self):
        raise Unsupported("is_leaf")

    @property
    def grad(self):
        return None

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def dim(self):
        return self.ndim

    def numel(self):
        return Arr.size.fget(self)

    def element_size(self):
        return self._dtype.itemsize

    def is_contiguous(self):
        return SymB(self.contig_cond()) if not isinstance(self.contig_cond(), bool) else self.contig_cond()

    def is_floating_point(self):
        return self._dtype.kindc == "f"

    def data_ptr(self):
        raise Unsupported("data_ptr")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at(()))
        n = A.prod(self._shape)
        if n == 1:
            return bool(self.at((0,) * self.ndim))
        if isinstance(n, int):
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        raise Unsupported("truth value of symbolic tensor")

    @property
    def strides(self):
        raise Unsupported("strides of a tensor")

    def stride(self, dim=None):
        from .core import lift_int
        s = tuple(lift_int(x) for x in self._strides)
        return s if dim is None else s[dim]

    # -- indexing
    def _key(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        out = []
        for k in ks:
            if isinstance(k, slice) and k.step is not None:
                st = k.step
                if not bool(st > 0):
                    raise ValueError("step must be greater than zero")
            if isinstance(k, Arr) and not k.torch:
                if k.ndim == 0:
                    k = k.at(())
                else:
                    k = from_numpy(k)
            if isinstance(k, Arr) and k._dtype.name == "uint8":
                raise Unsupported("uint8 index")
            if isinstance(k, Arr) and k.ndim and k._dtype.kindc == "f":
                raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
            out.append(k)
        return tuple(out) if isinstance(key, tuple) else out[0]

    def __getitem__(self, key):
        return A.getitem(self, self._key(key))

    def __setitem__(self, key, val):
        if self._expanded:
            raise Unsupported("write to an expanded tensor")
        if isinstance(val, Arr) and not val.torch and val.ndim:
            raise TypeError("can't assign a numpy.ndarray to a torch.FloatTensor")
        A.setitem(self, self._key(key), val)

    _expanded = False

    # -- conversions
    def to(self, *a, device=None, dtype=None, non_blocking=False, copy=False, **k):
        for x in a:
            if isinstance(x, Tensor):
                dtype = x._dtype
            elif isinstance(x, (str, Device)):
                device = x
            elif isinstance(x, bool):
                non_blocking = x
            elif x is not None:
                dtype = x
        if device is not None:
            want_device(device)
        dt = as_dtype(dtype) or self._dtype
        if dt == self._dtype and not copy:
            return self
        r = A.materialise(self, dt)
        r.requires_grad = self.requires_grad and dt.kindc == "f"
        return r

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        raise Unsupported("cuda")

    def pin_memory(self, *a):
        raise Unsupported("pin_memory")

    def type(self, dt=None):
        return self.to(dtype=dt)

    def float(self):
        return self.to(dtype=A.float32)

    def double(self):
        return self.to(dtype=A.float64)

    def half(self):
        return self.to(dtype=A.float16)

    def long(self):
        return self.to(dtype=A.int64)

    def int(self):
        return self.to(dtype=A.int32)

    def bool(self):
        return self.to(dtype=A.bool_)

    def detach(self):
        r = self._view(self._shape, lambda i: i, lambda i: (True, i), self._strides)
        r.requires_grad = False
        return r

    def requires_grad_(self, v=True):
        if v and self._dtype.kindc != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self.requires_grad = bool(v)
        return self

    def numpy(self, force=False):
        if self.requires_grad and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return Arr(self.buf, self._shape, self.fwd, self.inv, self._strides, self._dtype, base=self)

    def clone(self, **k):
        r = A.materialise(self)
        r.requires_grad = self.requires_grad
        return r

    def copy(self, *a):
        raise AttributeError("'Tensor' object has no attribute 'copy'")

    def astype(self, *a, **k):
        raise AttributeError("'Tensor' object has no attribute 'astype'")

    def contiguous(self):
        c = self.contig_cond()
        if c is True or (c is not False and bool(SymB(c))):
            return self
        return A.materialise(self)

    # -- shape
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return A.reshape(self, shape)

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], A.DType):
            if shape[0] == self._dtype:
                return self._view(self._shape, lambda i: i, lambda i: (True, i), self._strides)
            raise Unsupported("dtype view")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        self._must_view = True
        try:
            return A.reshape(self, shape)
        finally:
            self._must_view = False

    def view_as(self, o):
        return self.view(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        if (start_dim, end_dim) != (0, -1):
            raise Unsupported("partial flatten")
        return A.reshape(self, (-1,))

    def transpose(self, a, b):
        return self.swapaxes(a, b)

    def permute(self, *axes):
        return Arr.transpose(self, *axes)

    def t(self):
        return self.swapaxes(0, 1)

    def unsqueeze(self, dim):
        return A.expand_dims(self, dim)

    def squeeze(self, dim=None):
        if dim is None:
            return Arr.squeeze(self)
        dim %= self.ndim
        c = ieq(self._shape[dim], 1)
        if c is True or (c is not False and bool(SymB(c))):
            return Arr.squeeze(self, dim)
        return self

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        sizes = [raw(s) for s in sizes]
        off = len(sizes) - self.ndim
        if off < 0:
            raise RuntimeError("expand: too few sizes")
        new = []
        for k, s in enumerate(sizes):
            if isinstance(s, int) and s == -1:
                if k < off:
                    raise RuntimeError("expand: -1 in a leading dimension")
                s = self._shape[k - off]
            if not isinstance(s, int) and not bool(SymB(ile(0, s))):
                raise RuntimeError("expand: negative size")
            new.append(s)
        try:
            m = A.broadcast_map(self._shape, tuple(new))
        except ValueError as ex:
            raise RuntimeError(str(ex))
        src = self.snapshot()
        r = Tensor.from_fn(tuple(new), self._dtype, lambda idx: src(m(idx)))
        r._post_copy(self)
        r._expanded = True
        return r

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *a):
        raise Unsupported("repeat")

    # -- in place
    def _inplace(self, op, o):
        if self._expanded:
            raise Unsupported("write to an expanded tensor")
        r = A.binop(op, self, o)
        if self._dtype.kindc != "f" and r._dtype.kindc == "f":
            raise RuntimeError("result type Float can't be cast to the desired output type")
        A.setitem(self, Ellipsis, r)
        return self

    def add_(self, o):
        return self._inplace("+", o)

    def sub_(self, o):
        return self._inplace("-", o)

    def mul_(self, o):
        return self._inplace("*", o)

    def div_(self, o):
        return self._inplace("/", o)

    def _iop(self, op, o):
        return self._inplace(op, o)

    def clamp_(self, min=None, max=None):
        A.setitem(self, Ellipsis, clamp(self, min, max))
        return self

    def exp_(self):
        A.setitem(self, Ellipsis, exp(self))
        return self

    def log_(self):
        A.setitem(self, Ellipsis, log(self))
        return self

    def sigmoid_(self):
        A.setitem(self, Ellipsis, sigmoid(self))
        return self

    def neg_(self):
        A.setitem(self, Ellipsis, -self)
        return self

    def fill_(self, v):
        A.setitem(self, Ellipsis, v)
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o, non_blocking=False):
        A.setitem(self, Ellipsis, o)
        return self

    def scatter_(self, dim, index, src):
        if isinstance(src, Arr):
            raise Unsupported("scatter_ of a tensor")
        dim %= self.ndim
        m = index._shape[dim]
        if not isinstance(m, int) or m > 4:
            raise Unsupported("scatter_ with a long index")
        for k in range(self.ndim):
            if k != dim and not bool(SymB(ile(index._shape[k], self._shape[k]))):
                raise RuntimeError("scatter_: index larger than self")
        A.check_index_range(index, self._shape[dim])
        ix = index.snapshot()
        inv = self.inv
        val = A.cast_scalar(src, self._dtype)

        def cond(b):
            c, v = inv(b)
            if c is False:
                return False
            inside = [ilt(v[k], index._shape[k]) for k in range(self.ndim) if k != dim and ieq(index._shape[k], self._shape[k]) is not True]
            hit = [ieq(v[dim], raw(ix(v[:dim] + (l,) + v[dim + 1:]))) for l in range(m)]
            return band(c, *inside, bor_(*hit))
        self.buf.write(cond, lambda b: val)
        return self

    # -- element-wise methods
    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    clip = clamp

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def sigmoid(self):
        return sigmoid(self)

    def logit(self, eps=None):
        return logit(self, eps)

    def abs(self):
        return abs(self)

    def neg(self):
        return -self

    def square(self):
        return self * self

    def pow(self, n):
        return self ** n

    def add(self, o):
        return self + o

    def sub(self, o):
        return self - o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    def eq(self, o):
        return self == o

    def logical_not(self):
        return ~self

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def gather(self, dim, index):
        return gather(self, dim, index)

    def index_select(self, dim, index):
        return index_select(self, dim, index)

    def masked_fill(self, mask, v):
        return where(mask, v, self)

    def item(self):
        return self._vc_scalar()

    # -- reductions
    def _red(self, op, dim=None, keepdim=False):
        if dim is None:
            r = A.reduce_(self, op)
            return r if isinstance(r, Tensor) else scalar(r, A.bool_ if op in ("all", "any") else self._dtype)
        try:
            r = A.reduce_(self, op, dim, keepdim)
        except ValueError as ex:
            raise IndexError(str(ex))
        return r if isinstance(r, Tensor) else scalar(r, self._dtype)

    def all(self, dim=None, keepdim=False):
        return self._red("all", dim, keepdim)

    def any(self, dim=None, keepdim=False):
        return self._red("any", dim, keepdim)

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return minimum(self, dim)
        r = self._red("min", dim, keepdim)
        return r if dim is None else Values(r)

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return maximum(self, dim)
        r = self._red("max", dim, keepdim)
        return r if dim is None else Values(r)

    def amin(self, dim=None, keepdim=False):
        return self._red("min", dim, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._red("max", dim, keepdim)

    def sum(self, dim=None, keepdim=False, dtype=None):
        src = self.to(dtype=A.int64) if self._dtype.kindc == "b" and dim is not None else self
        r = src._red("sum", dim, keepdim)
        if self._dtype.kindc == "b" and dim is None:
            r = scalar(r.at(()), A.int64)
        return r

    def norm(self, p=2, dim=None, keepdim=False):
        return norm(self, p, dim, keepdim)

    def argmax(self, dim=None, keepdim=False):
        return argmax(self, dim, keepdim)

    def nonzero(self, as_tuple=False):
        from .fakenp import nonzero1
        r = nonzero1(self)
        t = from_arr(r)
        return (t,) if as_tuple else A.reshape(t, (-1, 1))

    def tobytes(self, *a):
        raise AttributeError("'Tensor' object has no attribute 'tobytes'")

    def tofile(self, *a, **k):
        raise AttributeError("'Tensor' object has no attribute 'tofile'")


def scalar(v, dt):
    if isinstance(v, Arr):
        v = v._vc_scalar()
    return Tensor.from_fn((), dt, lambda idx: v)


def from_arr(a):
    return Tensor(a.buf, a._shape, a.fwd, a.inv, a._strides, a._dtype, base=a)


# ---------------------------------------------------------------- construction
def from_numpy(a):
    if not isinstance(a, Arr) or a.torch:
        raise TypeError("expected np.ndarray")
    for s in a._strides:
        if bool(SymB(ilt(s, 0))) if not isinstance(s, int) else s < 0:
            raise ValueError("At least one stride in the given numpy array is negative")
    return from_arr(a)


def tensor(x, dtype=None, device=None, requires_grad=False):
    want_device(device)
    dt = as_dtype(dtype)
    if isinstance(x, Arr):
        r = A.materialise(x, dt or x._dtype)
        r = r if r.torch else from_arr(r)
    else:
        r = to_arr(x, dt, Tensor)
        if dt is None and r._dtype is A.float64:
            r = to_arr(x, A.float32, Tensor) if not isinstance(x, SV) else scalar(x, A.float32)
        if dt is None and r._dtype.kindc == "i" and r._dtype is not A.int64:
            r = r.to(dtype=A.int64)
    r.requires_grad = requires_grad
    return r


def as_tensor(x, dtype=None, device=None):
    want_device(device)
    if isinstance(x, Arr):
        t = x if x.torch else from_numpy(x)
        return t.to(dtype=dtype) if dtype is not None else t
    return tensor(x, dtype)


def _size(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return tuple(s)


def full(size, v, dtype=None, device=None, requires_grad=False):
    from .fakenp import _checkdims, _shape
    want_device(device)
    try:
        s = _checkdims(_shape(size))
    except ValueError as ex:
        raise RuntimeError(str(ex))
    dt = as_dtype(dtype) or {"r": A.float32, "i": A.int64, "b": A.bool_}[kind_of(v)]
    c = A.cast_scalar(v, dt)
    return Tensor.from_fn(s, dt, lambda idx: c)


def zeros(*s, dtype=None, device=None, **k):
    return full(_size(s), 0, as_dtype(dtype) or A.float32, device)


def ones(*s, dtype=None, device=None, **k):
    return full(_size(s), 1, as_dtype(dtype) or A.float32, device)


def empty(*s, dtype=None, device=None, **k):
    from .fakenp import _checkdims, _shape
    want_device(device)
    return A.uf_array(CTX.fresh_name("uninit"), _checkdims(_shape(_size(s))), as_dtype(dtype) or A.float32, Tensor)


def zeros_like(a, dtype=None, **k):
    return zeros(a.shape, dtype=as_dtype(dtype) or a._dtype)


def ones_like(a, dtype=None, **k):
    return ones(a.shape, dtype=as_dtype(dtype) or a._dtype)


def full_like(a, v, dtype=None, **k):
    return full(a.shape, v, as_dtype(dtype) or a._dtype)


def empty_like(a, dtype=None, **k):
    return empty(a.shape, dtype=as_dtype(dtype) or a._dtype)


def arange(*a, dtype=None, device=None):
    from . import fakenp
    want_device(device)
    return from_arr(fakenp.arange(*[x.item() if isinstance(x, Tensor) else x for x in a], dtype=dtype or A.int64))


# ---------------------------------------------------------------- element-wise
def _un(f):
    def g(x):
        if not isinstance(x, Tensor):
            raise TypeError("argument 'input' must be Tensor")
        return A.unop(x, f, x._dtype if x._dtype.kindc == "f" else A.float32)
    return g


exp, log, sqrt = _un(uexp), _un(ulog), _un(usqrt)
sigmoid = _un(lambda v: 1 / (1 + uexp(-v)))


def abs(x):
    return A.unop(x, lambda v: v if not isinstance(v, SV) and v >= 0 else __builtins_abs(v))


def __builtins_abs(v):
    import builtins
    return builtins.abs(v)


def square(x):
    return x * x


def neg(x):
    return -x


def clamp(x, min=None, max=None):
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    return A.clip(x, min, max)


def logit(x, eps=None):
    if eps is not None:
        lo = Fraction(eps) if not isinstance(eps, SV) else eps
        x = A.clip(x, lo, 1 - lo)
    return A.unop(x, lambda p: ulog(A.div(p, 1 - p)), x._dtype if x._dtype.kindc == "f" else A.float32)


def where(c, a=UNSET, b=UNSET):
    if a is UNSET:
        return c.nonzero(as_tuple=True)
    a = a if isinstance(a, Tensor) else scalar(a, {"r": A.float32, "i": A.int64, "b": A.bool_}[kind_of(a)])
    b = b if isinstance(b, Tensor) else scalar(b, {"r": A.float32, "i": A.int64, "b": A.bool_}[kind_of(b)])
    dt = t_promote("+", a, b)

    def f(cc, x, y):
        cc = rawb(cc)
        if CTX.no_fork or isinstance(cc, bool):
            return ite(cc, x, y)
        if isinstance(x, SV) and x.wrap or isinstance(y, SV) and y.wrap or isinstance(x, float) or isinstance(y, float):
            from .core import fork
            return x if fork(cc) else y
        return ite(settled(cc), x, y)
    return A.elementwise(f, [c, a, b], dt, Tensor)


def _bin(op, f):
    def g(a, b):
        return A.elementwise(f, [a, b], t_promote(op, a, b), Tensor)
    return g


minimum = _bin("min", A.smin)
maximum = _bin("max", A.smax)


def logical_and(a, b):
    return A.elementwise(lambda x, y: SymB(band(rawb(x), rawb(y))), [a, b], A.bool_, Tensor)


def logical_or(a, b):
    return A.elementwise(lambda x, y: SymB(bor_(rawb(x), rawb(y))), [a, b], A.bool_, Tensor)


def logical_not(a):
    return A.unop(a, lambda v: SymB(bnot(rawb(v))), A.bool_)


def isnan(x):
    return A.unop(x, lambda v: False, A.bool_)


isinf = isnan


def isfinite(x):
    return A.unop(x, lambda v: True, A.bool_)


# ---------------------------------------------------------------- joining, selecting
def _same_dt(ts):
    ts = list(ts)
    for t in ts:
        if not isinstance(t, Tensor):
            raise TypeError("expected Tensor as element in argument 0")
    return ts


def cat(ts, dim=0):
    ts = _same_dt(ts)
    try:
        return A.concatenate(ts, dim)
    except ValueError as ex:
        raise RuntimeError(str(ex))


def stack(ts, dim=0):
    try:
        return A.stack(_same_dt(ts), dim)
    except ValueError as ex:
        raise RuntimeError(str(ex))


def gather(x, dim, index):
    dim %= x.ndim
    for k in range(x.ndim):
        if k != dim and ieq(index._shape[k], x._shape[k]) is not True and not bool(SymB(ile(index._shape[k], x._shape[k]))):
            raise RuntimeError("gather: index larger than input")
    A.check_index_range(index, x._shape[dim])
    src, ix = x.snapshot(), index.snapshot()
    n = x._shape[dim]

    def fn(idx):
        j = raw(ix(idx))
        if isinstance(j, int):
            return src(idx[:dim] + (j,) + idx[dim + 1:])
        if isinstance(n, int) and n <= 8:
            return choose([(ieq(j, k) if k < n - 1 else True, src(idx[:dim] + (k,) + idx[dim + 1:])) for k in range(n)])
        A.register_index(j)
        return src(idx[:dim] + (j,) + idx[dim + 1:])
    r = Tensor.from_fn(index._shape, x._dtype, fn)
    r._post_copy(x)
    return r


def index_select(x, dim, index):
    key = [slice(None)] * x.ndim
    key[dim % x.ndim] = index
    return A.getitem(x, tuple(key))


def nonzero(x, as_tuple=False):
    return x.nonzero(as_tuple)


def take_along_dim(x, index, dim):
    return gather(x, dim, index)


# ---------------------------------------------------------------- reductions
def _red(op):
    def g(x, dim=None, keepdim=False):
        return getattr(x, op)(dim, keepdim)
    return g


all, any, amin, amax, sum = _red("all"), _red("any"), _red("amin"), _red("amax"), _red("sum")


def min(x, dim=None, keepdim=False):
    return x.min(dim, keepdim)


def max(x, dim=None, keepdim=False):
    return x.max(dim, keepdim)


def norm(x, p=2, dim=None, keepdim=False, **k):
    if p not in (2, "fro", 2.0):
        raise Unsupported("norm order")
    if dim is None:
        raise Unsupported("full norm")
    return sqrt((x * x).sum(dim, keepdim))


def argmax(x, dim=None, keepdim=False):
    if dim is None:
        raise Unsupported("full argmax")
    dim %= x.ndim
    n = x._shape[dim]
    if not isinstance(n, int) or n > 8:
        raise Unsupported("argmax over a long axis")
    if n == 0:
        raise IndexError("argmax(): Expected reduction dim to be non-empty")
    src = x.snapshot()

    def fn(idx):
        v = [src(idx[:dim] + (k,) + idx[(dim + 1 if keepdim else dim):]) for k in range(n)]
        # the first maximum
        opts = []
        for k in range(n):
            c = band(*[rawb(v[m] < v[k]) for m in range(k)], *[rawb(v[m] <= v[k]) for m in range(k + 1, n)])
            opts.append((c if k < n - 1 else True, k))
        opts = [(c, k) for c, k in opts if c is not False]
        return choose(opts) if len(opts) > 1 else opts[0][1]
    shape = x._shape[:dim] + ((1,) if keepdim else ()) + x._shape[dim + 1:]
    return Tensor.from_fn(shape, A.int64, fn)


def equal(a, b):
    from . import fakenp
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not A.dim_eq(x, y):
            return False
    return A.reduce_(A.binop("==", a, b), "all")


def is_tensor(x):
    return isinstance(x, Tensor)


class _NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def make(np=None):
    m = types.ModuleType("torch")
    g = globals()
    for k in ("from_numpy tensor as_tensor full zeros ones empty zeros_like ones_like full_like empty_like arange exp log sqrt sigmoid abs square neg "
              "clamp logit where minimum maximum logical_and logical_or logical_not isnan isinf isfinite cat stack gather index_select nonzero "
              "take_along_dim all any amin amax sum min max norm argmax equal is_tensor Tensor").split():
        setattr(m, k, g[k])
    m.concat = m.concatenate = cat
    m.clip = clamp
    m.linalg = types.SimpleNamespace(norm=lambda x, ord=None, dim=None, keepdim=False: norm(x, 2 if ord is None else ord, dim, keepdim))
    m.special = types.SimpleNamespace(logit=logit, expit=sigmoid)
    m.device = Device
    for n in "float16 float32 float64 int8 int16 int32 int64 uint8 uint16 uint32".split():
        if n in ALL_DTYPES:
            setattr(m, n, ALL_DTYPES[n])
    m.float, m.double, m.half, m.int, m.long, m.bool = A.float32, A.float64, ALL_DTYPES.get("float16"), A.int32, A.int64, A.bool_
    m.dtype = A.DType
    m.no_grad = lambda *a: _NoGrad()
    m.inference_mode = lambda *a: _NoGrad()
    m.compile = lambda f=None, **k: f if f is not None else (lambda h: h)
    m.inf = float("inf")
    m.cuda = types.SimpleNamespace(is_available=lambda: False)

    def missing(name):
        if name.startswith("__") or name == "_dynamo":
            raise AttributeError(name)
        raise Unsupported(f"torch.{name}")
    m.__getattr__ = missing
    return m
