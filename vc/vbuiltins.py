"""Replacements for the Python builtins seen by the code under verification.

They behave like the originals on concrete values and extend them to symbolic ones.
"""
import builtins
from fractions import Fraction

import z3

from . import arrays as A
from .core import (CTX, SV, SymB, Unsupported, band, entails, fork, iadd, ieq, ifloordiv, ile, ilt, imul, is_num, is_z, isub,
                   kind_of, lift_int, mk, mk_i, norm_z, raw, rawb, str_token, token_value, zreal)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SV):
            return x.kind == "i" and x.dt is None
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) if c is not cls else True

    def __eq__(cls, o):
        return o is int or o is VInt

    def __hash__(cls):
        return hash(int)


class VInt(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if base is not None:
            return int(x, base)
        return to_int(x)

    from_bytes = int.from_bytes


def to_int(x):
    if isinstance(x, (str, bytes, bytearray)):
        v = token_value(x)
        if v is not None:
            return v
        return int(x)
    if hasattr(x, "_vc_scalar"):
        x = x._vc_scalar()
    if isinstance(x, SV):
        if x.kind == "b":
            return mk_i(raw(x))
        if x.kind == "i":
            return SV(x.t, "i", x.bits, x.wrap, x.shr) if x.dt is not None else x
        return A.cast_scalar(x, A.int64)
    return int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SV):
            return x.kind == "r" and (x.dt is None or x.dt.name == "float64")
        return isinstance(x, (float, Fraction))

    def __eq__(cls, o):
        return o is float or o is VFloat

    def __hash__(cls):
        return hash(float)


class VFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            s = x.strip().lower()
            v = token_value(x)
            if v is not None:
                return mk(zreal(v), "r")
            if s in ("inf", "-inf", "nan", "+inf", "infinity", "-infinity"):
                return float(s)
            return Fraction(s)
        if hasattr(x, "_vc_scalar"):
            x = x._vc_scalar()
        if isinstance(x, SV):
            return mk(zreal(x), "r")
        if isinstance(x, float):
            return x if x in (float("inf"), float("-inf")) or x != x else Fraction(x)
        return Fraction(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SV):
            return x.kind == "b"
        return isinstance(x, bool)

    def __eq__(cls, o):
        return o is bool or o is VBool

    def __hash__(cls):
        return hash(bool)


class VBool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SV):
            return SymB(rawb(x))
        if hasattr(x, "_vc_scalar"):
            return SymB(rawb(x._vc_scalar()))
        return bool(x)


class _SliceMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is slice


class VSlice(metaclass=_SliceMeta):
    """`slice` in the loaded source: makes real slice objects (their ends may be symbolic)"""
    def __new__(cls, *a):
        return slice(*a)


def slice_indices(s, n):
    st, step, ln, stop = A._slice_full(s, raw(n))
    return lift_int(st), lift_int(stop), lift_int(step)


def has_sym(s):
    return any(isinstance(x, SV) for x in (s.start, s.stop, s.step))


class VRange:
    def __init__(self, *a):
        a = [raw(to_int(x) if hasattr(x, "_vc_scalar") else x) for x in a]
        if len(a) == 1:
            self.lo, self.hi, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.lo, self.hi, self.step = a[0], a[1], 1
        else:
            self.lo, self.hi, self.step = a
        if not isinstance(self.step, int):
            raise Unsupported("range with symbolic step")

    def concrete(self):
        return isinstance(self.lo, int) and isinstance(self.hi, int)

    def native(self):
        return range(self.lo, self.hi, self.step)

    def fixed(self):
        """concrete trip count even if the start is symbolic"""
        if self.concrete():
            return [i for i in self.native()]
        d = isub(self.hi, self.lo)
        if isinstance(d, int):
            return [lift_int(iadd(self.lo, k)) for k in range(0, d, self.step)]
        return None

    def __iter__(self):
        f = self.fixed()
        if f is None:
            raise Unsupported("iteration over a symbolic range outside a supported loop")
        return iter(f)

    def __len__(self):
        f = self.fixed()
        if f is None:
            raise Unsupported("len(range)")
        return len(f)

    def _vc_len(self):
        f = self.fixed()
        if f is not None:
            return len(f)
        if self.step == 1:
            d = isub(self.hi, self.lo)
            return lift_int(d) if entails(ile(0, d)) else mk(z3.If(norm_z(d) >= 0, norm_z(d), 0), "i")
        raise Unsupported("len(range)")

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("in range with step")
        return bool(SymB(band(ile(self.lo, raw(x)), ilt(raw(x), self.hi))))


def v_len(x):
    if hasattr(x, "_vc_len"):
        return x._vc_len()
    f = getattr(type(x), "__len__", None)
    if f is not None and getattr(type(x), "_vc_user", False):
        return f(x)
    if isinstance(x, (bytes, bytearray)):
        from . import fakeio
        return fakeio.vlen(x)
    mod = getattr(type(x), "__module__", "")
    if mod.startswith("gsply"):
        return type(x).__len__(x)
    return len(x)


def _items(a):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def v_min(*a, key=None, default=None):
    xs = _items(a)
    if key is not None:
        return min(xs, key=key)
    if not xs:
        if default is not None:
            return default
        raise ValueError("min() arg is an empty sequence")
    r = unwrap(xs[0])
    for x in xs[1:]:
        r = A.smin(r, unwrap(x)) if is_num(r) and is_num(unwrap(x)) else (x if x < r else r)
    return r


def v_max(*a, key=None, default=None):
    xs = _items(a)
    if key is not None:
        return max(xs, key=key)
    if not xs:
        if default is not None:
            return default
        raise ValueError("max() arg is an empty sequence")
    r = unwrap(xs[0])
    for x in xs[1:]:
        r = A.smax(r, unwrap(x)) if is_num(r) and is_num(unwrap(x)) else (x if x > r else r)
    return r


def unwrap(x):
    return x._vc_scalar() if hasattr(x, "_vc_scalar") else x


def v_isinstance(x, c):
    if isinstance(c, tuple):
        return any(v_isinstance(x, k) for k in c)
    if c is float:
        c = VFloat
    elif c is int:
        c = VInt
    elif c is bool:
        c = VBool
    elif c is slice:
        c = VSlice
    elif c is bytes:
        return isinstance(x, bytes)
    if isinstance(c, A.DType):
        return isinstance(x, SV) and x.dt is not None and x.dt.name == c.name
    return isinstance(x, c)


def v_round(x, nd=None):
    if isinstance(x, SV):
        if nd is not None:
            raise Unsupported("round with digits")
        if x.kind == "i":
            return x
        return A.rint(x)
    if isinstance(x, Fraction) or isinstance(x, (int, float)):
        return round(x) if nd is None else round(x, nd)
    return round(x)


def v_abs(x):
    x = unwrap(x)
    return abs(x)


def v_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def v_divmod(a, b):
    return a // b, a % b


def v_pow(a, b, m=None):
    return a ** b


def v_all(it):
    for x in it:
        if not x:
            return False
    return True


def v_any(it):
    for x in it:
        if x:
            return True
    return False


def v_str(x="", *a):
    if isinstance(x, SV):
        return str_token(x)
    return str(x, *a)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __eq__(cls, o):
        return o is str or o is VStr

    def __hash__(cls):
        return hash(str)


class VStr(metaclass=_StrMeta):
    def __new__(cls, x="", *a):
        return v_str(x, *a)

    join = str.join
    strip = str.strip
    lower = str.lower
    startswith = str.startswith
    maketrans = str.maketrans


def v_print(*a, **k):
    return None


def make_builtins(importer, opener):
    d = dict(builtins.__dict__)
    d.update(len=v_len, range=VRange, min=v_min, max=v_max, int=VInt, float=VFloat, bool=VBool, slice=VSlice,
             isinstance=v_isinstance, round=v_round, abs=v_abs, sum=v_sum, all=v_all, any=v_any, divmod=v_divmod, pow=v_pow,
             open=opener, __import__=importer, print=v_print)
    return d
