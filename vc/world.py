"""Binding of the extracted modules to the models of their dependencies."""
import types

from . import arrays as A
from . import fakeio, fakenp, fakesog
from .core import CTX, SV, Unsupported, uexp, ulog, usqrt
from .loader import World
from .vbuiltins import VRange


def _numba():
    m = types.ModuleType("numba")

    def passthrough(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    m.jit = m.njit = passthrough
    m.prange = VRange
    m.get_num_threads = lambda: 8
    m.set_num_threads = lambda n: None
    m.config = types.SimpleNamespace(NUMBA_NUM_THREADS=8)

    class _Ty:
        def __getattr__(self, n):
            return _Ty()

        def __call__(self, *a, **k):
            return self

        def __getitem__(self, k):
            return self
    for n in "types typed float32 float64 int32 int64 uint32 uint8 boolean void".split():
        setattr(m, n, _Ty())
    return m


class _Logger:
    def __getattr__(self, n):
        if n == "isEnabledFor":
            return lambda *a: False
        return lambda *a, **k: None


def _logging():
    import logging
    m = types.ModuleType("logging")
    m.getLogger = lambda *a: _Logger()
    for n in "DEBUG INFO WARNING ERROR CRITICAL NOTSET".split():
        setattr(m, n, getattr(logging, n))
    m.Logger = _Logger
    m.NullHandler = _Logger
    for n in "debug info warning error exception".split():
        setattr(m, n, lambda *a, **k: None)
    return m


def _pathlib():
    m = types.ModuleType("pathlib")
    m.Path = fakeio.FakePath
    m.PurePath = fakeio.FakePath
    m.PurePosixPath = fakeio.FakePath
    return m


def _io():
    import io
    m = types.ModuleType("io")
    m.BytesIO = fakeio.FakeBytesIO
    m.SEEK_SET, m.SEEK_CUR, m.SEEK_END = 0, 1, 2
    m.UnsupportedOperation = io.UnsupportedOperation
    m.DEFAULT_BUFFER_SIZE = 8192
    return m


def _math():
    import math
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("_"):
            f = getattr(math, n)
            if callable(f):
                def g(*a, _f=f, _n=n):
                    a = [x._vc_scalar() if hasattr(x, "_vc_scalar") else x for x in a]
                    if any(isinstance(x, SV) for x in a):
                        if _n == "sqrt":
                            return usqrt(a[0])
                        if _n == "exp":
                            return uexp(a[0])
                        if _n == "log" and len(a) == 1:
                            return ulog(a[0])
                        if _n == "ceil":
                            return -((-a[0]) // 1) if a[0].kind == "i" else A.cast_scalar(fakenp._fceil(a[0]), A.int64)
                        if _n == "floor":
                            return a[0] if a[0].kind == "i" else A.cast_scalar(fakenp._ffloor(a[0]), A.int64)
                        if _n == "prod":
                            raise Unsupported("math.prod")
                        if _n in ("isfinite",):
                            return True
                        if _n in ("isnan", "isinf"):
                            return False
                        if _n == "fabs":
                            return abs(a[0])
                        raise Unsupported("math." + _n)
                    r = _f(*a)
                    from fractions import Fraction
                    return Fraction(r) if isinstance(r, float) and r == r and abs(r) != float("inf") else r
                setattr(m, n, g)
            else:
                from fractions import Fraction
                setattr(m, n, Fraction(f) if isinstance(f, float) and f == f and abs(f) != float("inf") else f)
    return m


def make_world(stubs=None, with_torch=True, extra=None):
    np, npt = fakenp.make()
    fakes = {"numpy": np, "numpy.typing": npt, "numba": _numba(), "logging": _logging(), "pathlib": _pathlib(), "io": _io(),
             "math": _math(), "zipfile": fakesog.zip_module(), "json": fakesog.json_module(),
             "imagecodecs": fakesog.imagecodecs_module()}
    if with_torch:
        from . import faketorch
        fakes["torch"] = faketorch.make(np)
    else:
        fakes["torch"] = None
    if extra:
        fakes.update(extra)
    return World(fakes, fakeio.fake_open, stubs)
