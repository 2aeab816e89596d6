"""Core of the deductive engine: symbolic scalars, path exploration, facts and obligations.

The real source of gsply (see loader.py) is executed by CPython itself; the only thing that is
symbolic are the values.  A branch on a symbolic boolean splits the path; every obligation is
discharged by an SMT solver under the path condition, for all values of all symbols.
"""
import sys
from fractions import Fraction
from itertools import product

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import time
import z3  # noqa: E402

z3.z3.Z3_DEBUG = False
FAST = True
FEAS_MS = 700

z3.set_param("smt.random_seed", 0)
z3.set_param("sat.random_seed", 0)


class PathEnd(BaseException):
    """The current path is infeasible or finished."""


class NonTermination(BaseException):
    """The code keeps reading at the end of a file without ever stopping."""


class MergeFail(BaseException):
    """a branch of a conditional expression has to split the path itself"""


class Unsupported(BaseException):
    """The code uses something outside the engine's reach; nothing is claimed."""


class NeedSequential(BaseException):
    """A loop body carries state between iterations: the map rule does not apply."""


class EngineLimit(Unsupported):
    pass


# ---------------------------------------------------------------- path state
class Path:
    def __init__(self, prefix=(), solver=None):
        self.prefix = list(prefix)
        self.taken = []          # [(choice, n_options, forced)]
        self.pc = []             # z3 Bool: path condition + light assumptions
        self.heavy = []          # assumptions used only when proving
        self.lemmas = []         # Lemma objects, instantiated when proving
        self.iterms = {}         # id -> z3 Int term: instantiation candidates
        if solver is None:
            solver = z3.Solver()
            solver.set("timeout", FEAS_MS)
        self.solver = solver
        self.notes = []
        self.memo = {}
        self.depth = 0
        self.branch = []
        self.base_pc = self.base_heavy = self.base_lemmas = 0


class Lemma:
    """forall vars. guard -> body   (instantiated by hand at registered index terms)"""

    def __init__(self, vars_, body, name="", mk=None):
        self.vars, self.body, self.name, self.mk = vars_, body, name, mk


class Ctx:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.path = None
        self.counter = 0
        self.loop_vars = []      # z3 consts of enclosing map loops
        self.loop_pc_mark = []
        self.write_log = None
        self.read_log = None
        self.load_log = None
        self.no_fork = 0
        self.merging = 0
        self.kernel = []         # stack of kernel names
        self.in_loop_of = None
        self.check_bounds = False
        self.check_casts = False
        self.obligs = []
        self.on_prove = None
        self.nonneg = {}         # ast id -> term (kept alive)
        self.max_paths = 4000
        self.deadline = None
        self.mode = "sym"
        self.stats = dict(feas=0, feas_s=0.0, prove=0, prove_s=0.0, paths=0)
        self.sel_cache = {}
        self.field_w = {}
        self.max_forks = 400
        self.no_axioms = False
        self.ghost = 0
        self.stubs = {}
        self.fs = None
        self.undo = None
        self.entered = set()
        self.parallel_strict = False

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"


CTX = Ctx()


def fresh_term(base, sort):
    """Fresh constant; inside map loops a fresh function of the loop variables."""
    name = CTX.fresh_name(base)
    if CTX.loop_vars:
        f = z3.Function(name, *[v.sort() for v in CTX.loop_vars], sort)
        return f(*CTX.loop_vars)
    return z3.Const(name, sort)


# ---------------------------------------------------------------- index terms
def is_z(x):
    return isinstance(x, z3.ExprRef)


def raw(x):
    """SV / int -> python int or z3 Int expr."""
    if isinstance(x, SV):
        if x.kind == "b":
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        if x.kind == "r":
            raise Unsupported("real used as index")
        return x.term()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if is_z(x):
        return x
    if hasattr(x, "_vc_scalar"):
        return raw(x._vc_scalar())
    raise Unsupported(f"index of type {type(x).__name__}")


def fold(x):
    if is_z(x) and z3.is_int_value(x):
        return x.as_long()
    return x


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return norm_lin(a + b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    if is_z(a) and is_z(b) and a.eq(b):
        return 0
    return norm_lin(a - b)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
    return norm_lin(a * b)


_norm_cache = {}


def norm_lin(e):
    """Normal form for linear integer terms, so structurally equal terms compare equal."""
    if not is_z(e):
        return e
    k = e.get_id()
    r = _norm_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    s = z3.simplify(e, som=True)
    s = fold(divmod_join(s))
    _norm_cache[k] = (e, s)
    return s


def divmod_join(s):
    """k*a*(x div a) + k*(x mod a) = k*x"""
    if not z3.is_add(s):
        return s
    ch = s.children()
    divs = {}
    mods = []
    for n, t in enumerate(ch):
        k, u = 1, t
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            k, u = t.arg(0).as_long(), t.arg(1)
        d = u.decl().kind()
        if d == z3.Z3_OP_IDIV and z3.is_int_value(u.arg(1)):
            divs[(u.arg(0).get_id(), u.arg(1).as_long(), k)] = n
        elif d == z3.Z3_OP_MOD and z3.is_int_value(u.arg(1)):
            mods.append((u.arg(0), u.arg(1).as_long(), k, n))
    gone = set()
    new = []
    for x, a, k, n in mods:
        m = divs.get((x.get_id(), a, k * a))
        if m is not None and m not in gone and a > 0:
            gone |= {m, n}
            new.append(x if k == 1 else k * x)
    if not new:
        return s
    rest = [t for n, t in enumerate(ch) if n not in gone] + new
    return z3.simplify(z3.Sum(rest) if len(rest) > 1 else rest[0], som=True)


def nonneg(e):
    if isinstance(e, int):
        return e >= 0
    t = CTX.nonneg.get(e.get_id())
    if t is not None:
        return True
    if z3.is_int_value(e):
        return e.as_long() >= 0
    d = e.decl().kind()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(nonneg(c) for c in e.children())
    if d == z3.Z3_OP_IDIV:
        a, b = e.children()
        return nonneg(a) and nonneg(b)
    if d == z3.Z3_OP_MOD:
        return True
    if d == z3.Z3_OP_ITE:
        return nonneg(e.arg(1)) and nonneg(e.arg(2))
    return False


def mark_nonneg(t):
    if is_z(t):
        CTX.nonneg[t.get_id()] = t
    return t


def ifloordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(b, int) and b > 1 and is_z(a):
        q = _div_const(a, b)
        if q is not None:
            return q
    return norm_lin(z3_int(a) / z3_int(b))


def imod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int) and b == 1:
        return 0
    if isinstance(b, int) and b > 1 and is_z(a):
        r = _mod_const(a, b)
        if r is not None:
            return r
    return norm_lin(z3_int(a) % z3_int(b))


def _lin_parts(a):
    a = norm_lin(a)
    if isinstance(a, int):
        return [], a
    if z3.is_add(a):
        ch = a.children()
    else:
        ch = [a]
    parts, c = [], 0
    for x in ch:
        if z3.is_int_value(x):
            c += x.as_long()
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)):
            rest = x.children()[1:]
            t = rest[0] if len(rest) == 1 else z3.Product(*rest)
            parts.append((x.arg(0).as_long(), t))
        else:
            parts.append((1, x))
    return parts, c


def _small(t, b):
    """Is 0 <= t < b known cheaply (t an index bounded by a declared extent)?"""
    r = CTX_BOUNDS.get(t.get_id())
    return r is not None and r[0].eq(t) and isinstance(r[1], int) and r[1] <= b


CTX_BOUNDS = {}   # ast id -> (term, exclusive upper bound) for nonnegative index constants


def set_bound(t, ub):
    if is_z(t):
        mark_nonneg(t)
        CTX_BOUNDS[t.get_id()] = (t, ub)
    return t


def _upper(t):
    """exclusive bound of a non-negative term, if one is known without reasoning"""
    bd = CTX_BOUNDS.get(t.get_id())
    if bd is not None and bd[0].eq(t) and isinstance(bd[1], int):
        return bd[1]
    if z3.is_mod(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return t.arg(1).as_long()
    return None


def _split_const(a, b):
    """a = b*q + r with r provably in [0,b) syntactically, else None."""
    parts, c = _lin_parts(a)
    q, r = [], []
    for k, t in parts:
        if k % b == 0:
            q.append((k // b, t))
        else:
            r.append((k, t))
    qc, rc = divmod(c, b)
    hi = rc
    for k, t in r:
        bd = _upper(t)
        if k < 0 or bd is None:
            return None
        hi += k * (bd - 1)
    if hi >= b:
        return None
    return (q, qc), (r, rc)


def _build(parts, c):
    e = c
    for k, t in parts:
        e = iadd(e, imul(k, t))
    return e


def _div_const(a, b):
    s = _split_const(a, b)
    return None if s is None else _build(*s[0])


def _mod_const(a, b):
    s = _split_const(a, b)
    return None if s is None else _build(*s[1])


def z3_int(a):
    return z3.IntVal(a) if isinstance(a, int) else a


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = norm_lin(z3_int(a) - z3_int(b))
    if isinstance(d, int):
        return d == 0
    return z3_int(a) == z3_int(b)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    d = norm_lin(z3_int(b) - z3_int(a))
    if isinstance(d, int):
        return d > 0
    # t < c when t is bounded
    if isinstance(b, int) and is_z(a):
        r = CTX_BOUNDS.get(a.get_id())
        if r is not None and r[0].eq(a) and isinstance(r[1], int) and r[1] <= b:
            return True
    return z3_int(a) < z3_int(b)


def ile(a, b):
    return ilt(a, iadd(b, 1))


def band(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor_(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ---------------------------------------------------------------- scalars
def zreal(x):
    if isinstance(x, SV):
        if x.kind == "r":
            return x.t
        if x.kind == "i":
            return z3.ToReal(x.term())
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, float):
        if x in (float("inf"), float("-inf")) or x != x:
            raise Unsupported("non-finite constant in arithmetic")
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if is_z(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    raise Unsupported(f"real of {type(x).__name__}")


def kind_of(x):
    if isinstance(x, SV):
        return x.kind
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (Fraction, float)):
        return "r"
    raise Unsupported(f"kind of {type(x).__name__}")


def is_num(x):
    return isinstance(x, (SV, bool, int, Fraction, float))


def const_of(t):
    """z3 value -> python constant or None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def mk(t, kind):
    c = const_of(t)
    if c is not None:
        if kind == "r":
            return Fraction(c)
        return c
    return SV(t, kind)


def lift_int(t):
    """raw index -> SV or int"""
    return t if isinstance(t, int) else mk(t, "i")


def SymB(c):
    """raw bool -> SV or bool"""
    return c if isinstance(c, bool) else mk(c, "b")


def rawb(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, SV):
        if x.kind == "b":
            return x.t
        if x.kind == "i":
            return bnot(ieq(x.term(), 0))
        return x.t != 0
    if isinstance(x, (int, Fraction)):
        return x != 0
    if is_z(x):
        return x
    if hasattr(x, "_vc_scalar"):
        return rawb(x._vc_scalar())
    raise Unsupported(f"bool of {type(x).__name__}")


class SV:
    """Symbolic scalar.  kind: 'i' Int, 'r' Real, 'b' Bool.

    bits: for packed integers, [(lo, width, field)] with value = sum(field << lo), fields disjoint.
    wrap: the value is the int32 reinterpretation of the unsigned value (bits / t).
    shr : pending arithmetic right shift of a wrapped value.
    """
    __slots__ = ("t", "kind", "bits", "wrap", "shr", "dt")

    def __init__(self, t, kind, bits=None, wrap=False, shr=0, dt=None):
        self.t, self.kind, self.bits, self.wrap, self.shr, self.dt = t, kind, bits, wrap, shr, dt

    # -- representation
    def term(self):
        """z3 Int term of the actual (signed) value."""
        if self.kind == "b":
            return z3.If(self.t, z3.IntVal(1), z3.IntVal(0))
        if self.wrap:
            u = self.t
            s = z3.If(u >= 2 ** 31, u - 2 ** 32, u)
            if self.shr:
                s = s / z3.IntVal(2 ** self.shr)
            return s
        return self.t

    def __repr__(self):
        return f"SV<{self.kind}:{str(self.t)[:120]}>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __format__(self, spec):
        return str_token(self)

    def __str__(self):
        return str_token(self)

    def __index__(self):
        raise Unsupported("symbolic value used where a concrete index is needed")

    def __int__(self):
        raise Unsupported("int() of symbolic value via native call")

    def __float__(self):
        raise Unsupported("float() of symbolic value via native call")

    def __bool__(self):
        c = rawb(self)
        if isinstance(c, bool):
            return c
        return fork(c)

    # numpy-scalar look
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    @property
    def dtype(self):
        from . import arrays
        return self.dt or {"i": arrays.int64, "r": arrays.float32, "b": arrays.bool_}[self.kind]

    def astype(self, dt, copy=True):
        from . import arrays
        return arrays.cast_scalar(self, arrays.as_dtype(dt))

    def copy(self):
        return self

    def bit_length(self):
        raise Unsupported("bit_length of symbolic value")

    def is_integer(self):
        if self.kind != "r":
            return True
        return SymB(z3.IsInt(self.t))

    # -- arithmetic
    def _num2(self, o):
        if not is_num(o):
            return None
        return "r" if "r" in (kind_of(self), kind_of(o)) else "i"

    def __add__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            return mk_i(iadd(raw(self), raw(o)))
        if not isinstance(o, SV) and o == 0:
            return self if self.kind == "r" else mk(zreal(self), "r")
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o
        return mk(zreal(self) + zreal(o), "r")

    __radd__ = __add__

    def __sub__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            return mk_i(isub(raw(self), raw(o)))
        if isinstance(o, SV) and o.kind == "r" and self.kind == "r" and o.t.eq(self.t):
            return Fraction(0)
        return mk(zreal(self) - zreal(o), "r")

    def __rsub__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            return mk_i(isub(raw(o), raw(self)))
        return mk(zreal(o) - zreal(self), "r")

    def __mul__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            return mk_i(imul(raw(self), raw(o)))
        if not isinstance(o, SV):
            if o == 0:
                return Fraction(0)
            if o == 1:
                return self if self.kind == "r" else mk(zreal(self), "r")
        return mk(zreal(self) * zreal(o), "r")

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if not isinstance(o, SV) and o != 0:
            return self * (Fraction(1) / Fraction(o))
        return mk(zreal(self) / zreal(o), "r")

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return mk(zreal(o) / zreal(self), "r")

    def __floordiv__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            b = raw(o)
            if isinstance(b, int) and b > 0:
                return mk_i(ifloordiv(raw(self), b))
            if is_z(b):
                if not (SymB(b > 0)):
                    raise Unsupported("floor division by non-positive symbolic")
                return mk_i(ifloordiv(raw(self), b))
            raise Unsupported("floor division by non-positive")
        return mk(z3.ToReal(z3.ToInt(zreal(self) / zreal(o))), "r")

    def __rfloordiv__(self, o):
        return SV.__floordiv__(mk_sv(o), self)

    def __mod__(self, o):
        k = self._num2(o)
        if k is None:
            return NotImplemented
        if k == "i":
            b = raw(o)
            if isinstance(b, int) and b > 0:
                return mk_i(imod(raw(self), b))
            if is_z(b):
                if not (SymB(b > 0)):
                    raise Unsupported("mod by non-positive symbolic")
                return mk_i(imod(raw(self), b))
        raise Unsupported("real modulo")

    def __rmod__(self, o):
        return SV.__mod__(mk_sv(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, Fraction) and o.denominator == 1:
            o = int(o)
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if o == Fraction(1, 2):
            return usqrt(self)
        raise Unsupported("pow")

    def __rpow__(self, o):
        raise Unsupported("pow with symbolic exponent")

    def __neg__(self):
        if self.kind == "r":
            return mk(-self.t, "r")
        return mk_i(isub(0, raw(self)))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == "r":
            return mk(z3.If(self.t >= 0, self.t, -self.t), "r")
        t = raw(self)
        if nonneg(t):
            return self
        return mk(z3.If(t >= 0, t, -t), "i")

    # -- bit operations
    def __lshift__(self, s):
        if isinstance(s, SV):
            raise Unsupported("shift by symbolic")
        s = int(s)
        b = self.bits if self.bits is not None else [(0, None, raw(self))]
        if self.wrap:
            raise Unsupported("shift of wrapped value")
        nb = [(lo + s, w, f) for lo, w, f in b]
        return SV(norm_z(imul(raw(self), 2 ** s)), "i", bits=nb)

    def __rlshift__(self, o):
        raise Unsupported("shift by symbolic")

    def __rshift__(self, s):
        if isinstance(s, SV):
            raise Unsupported("shift by symbolic")
        s = int(s)
        if s == 0:
            return self
        if self.wrap:
            return SV(self.t, "i", bits=self.bits, wrap=True, shr=self.shr + s)
        nb = None
        if self.bits is not None:
            nb = []
            for lo, w, f in self.bits:
                if lo >= s:
                    nb.append((lo - s, w, f))
                elif w is not None and lo + w <= s:
                    pass
                else:
                    nb = None
                    break
            if nb is not None:
                return from_bits(nb)
        return mk_i(ifloordiv(raw(self), 2 ** s))

    def __rrshift__(self, o):
        raise Unsupported("shift by symbolic")

    def __and__(self, m):
        if self.kind == "b" and kind_of(m) == "b":
            return SymB(band(rawb(self), rawb(m)))
        if isinstance(m, SV):
            raise Unsupported("& of two symbolic integers")
        m = int(m)
        if m < 0:
            raise Unsupported("& negative mask")
        if m == 0:
            return 0
        if (m + 1) & m:
            # mask not of the form 2^k-1: split into shifted contiguous runs
            lo = (m & -m).bit_length() - 1
            run = m >> lo
            if (run + 1) & run:
                raise Unsupported("non contiguous mask")
            return ((self >> lo) & run) << lo
        k = m.bit_length()
        if self.wrap:
            s = self.shr
            if s + k > 32:
                # sign extension bits are involved
                if s == 0 and k >= 32:
                    return SV(self.t, "i", bits=self.bits)
                return mk_i(imod(self.term(), 2 ** k))
            base = SV(self.t, "i", bits=self.bits)
            return (base >> s) & m
        if self.bits is not None:
            nb = []
            ok = True
            for lo, w, f in self.bits:
                if lo >= k:
                    continue
                if w is not None and lo + w <= k:
                    nb.append((lo, w, f))
                else:
                    w2 = field_width(f, k - lo)
                    if w2 is not None:
                        nb.append((lo, w2, f))
                    else:
                        ok = False
                        break
            if ok:
                return from_bits(nb)
        t = raw(self)
        return mk_i(imod(t, 2 ** k))

    __rand__ = __and__

    def __or__(self, o):
        if self.kind == "b" and kind_of(o) == "b":
            return SymB(bor_(rawb(self), rawb(o)))
        return bit_or(self, o)

    def __ror__(self, o):
        if self.kind == "b" and kind_of(o) == "b":
            return SymB(bor_(rawb(self), rawb(o)))
        return bit_or(mk_sv(o), self)

    def __xor__(self, o):
        if self.kind == "b" and kind_of(o) == "b":
            a, b = rawb(self), rawb(o)
            if isinstance(b, bool):
                return SymB(bnot(a) if b else a)
            return SymB(z3.Xor(zb(a), zb(b)))
        raise Unsupported("integer xor")

    __rxor__ = __xor__

    def __invert__(self):
        if self.kind == "b":
            return SymB(bnot(self.t))
        return -self - 1

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        if not is_num(o):
            return NotImplemented
        k1, k2 = kind_of(self), kind_of(o)
        if k1 == "b" and k2 == "b" and op in ("eq", "ne"):
            a, b = rawb(self), rawb(o)
            if isinstance(b, bool):
                r = a if b else bnot(a)
            else:
                r = True if a.eq(b) else a == b
            return SymB(r if op == "eq" else bnot(r))
        if "r" not in (k1, k2):
            a, b = raw(self), raw(o)
            r = {"lt": lambda: ilt(a, b), "le": lambda: ile(a, b), "gt": lambda: ilt(b, a),
                 "ge": lambda: ile(b, a), "eq": lambda: ieq(a, b), "ne": lambda: bnot(ieq(a, b))}[op]()
            return SymB(r)
        a, b = zreal(self), zreal(o)
        if a.eq(b):
            return op in ("le", "ge", "eq")
        r = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
             "eq": lambda: a == b, "ne": lambda: a != b}[op]()
        return mk(r, "b")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r


def norm_z(x):
    return z3_int(x) if isinstance(x, int) else x


def mk_i(t):
    if isinstance(t, int):
        return t
    return mk(t, "i")


def mk_sv(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, bool):
        return SV(z3.BoolVal(x), "b")
    if isinstance(x, int):
        return SV(z3.IntVal(x), "i")
    return SV(zreal(x), "r")


def from_bits(nb):
    if not nb:
        return 0
    if len(nb) == 1 and nb[0][0] == 0:
        return mk_i(nb[0][2])
    t = 0
    for lo, w, f in nb:
        t = iadd(t, imul(2 ** lo, f))
    if isinstance(t, int):
        return t
    return SV(t, "i", bits=list(nb))


def field_width(f, w):
    """Prove 0 <= f < 2**w (returns w or None)."""
    if isinstance(f, int):
        return w if 0 <= f < 2 ** w else None
    key = (f.get_id(), w)
    if key in CTX.field_w and CTX.field_w[key][0].eq(f):
        return CTX.field_w[key][1]
    g = z3.And(f >= 0, f < 2 ** w)
    ok = entails(g)
    CTX.field_w[key] = (f, w if ok else None)
    return w if ok else None


BOR = z3.Function("bor", z3.IntSort(), z3.IntSort(), z3.IntSort())


def const_field(x):
    """a constant as one bit field (its trailing zeros are the field's offset)"""
    if is_z(x) and z3.is_int_value(x):
        x = x.as_long()
    if isinstance(x, int) and x > 0:
        z = (x & -x).bit_length() - 1
        return [(z, x.bit_length() - z, x >> z)]
    if isinstance(x, int) and x == 0:
        return []
    return [(0, None, x)]


def bit_or(a, b):
    if isinstance(b, int) and b == 0:
        return a
    b = mk_sv(b) if not isinstance(b, SV) else b
    wrap = a.wrap or b.wrap
    if a.shr or b.shr:
        raise Unsupported("| of shifted wrapped ints")
    fa = a.bits if a.bits is not None else const_field(raw(a))
    fb = b.bits if b.bits is not None else const_field(raw(b))
    allf = sorted(fa + fb, key=lambda x: x[0])
    out = []
    ok = True
    for n, (lo, w, f) in enumerate(allf):
        if n + 1 < len(allf):
            lim = allf[n + 1][0] - lo
            if lim <= 0:
                ok = False
                break
            if w is None or w > lim:
                w = field_width(f, lim)
                if w is None:
                    ok = False
                    break
        elif wrap:
            w = field_width(f, 32 - lo) if lo < 32 else None
            ok = w is not None
        out.append((lo, w, f))
    if ok:
        r = from_bits(out)
        return SV(norm_z(raw(r)), "i", bits=r.bits, wrap=True) if wrap and isinstance(r, SV) else r
    if wrap:
        raise Unsupported("| of wrapped ints with overlapping bits")
    x, y = norm_z(raw(a)), norm_z(raw(b))
    t = BOR(x, y)
    mark_nonneg(t)
    return SV(t, "i")


# ---------------------------------------------------------------- transcendental functions
R = z3.RealSort()
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SQRT = z3.Function("sqrt", R, R)
UNARY = {}


def uexp(x):
    return mk(EXP(zreal(x)), "r") if not (not isinstance(x, SV) and x == 0) else Fraction(1)


def ulog(x):
    if not isinstance(x, SV) and x == 1:
        return Fraction(0)
    t = zreal(x)
    return mk(LOG(t), "r")


def usqrt(x):
    if not isinstance(x, SV):
        if x == 0:
            return Fraction(0)
        if x == 1:
            return Fraction(1)
    return mk(SQRT(zreal(x)), "r")


def uother(name, x):
    f = UNARY.setdefault(name, z3.Function("u_" + name, R, R))
    return mk(f(zreal(x)), "r")


def collect_apps(terms, decls):
    """All applications of the given declarations inside terms (as dict name->list)."""
    seen = set()
    out = {d.name(): [] for d in decls}
    names = {d.name() for d in decls}
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            n = t.decl().name()
            if n in names and t.num_args() > 0:
                out[n].append(t)
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return out


HAS_T = {}


def has_transcendental(t):
    k = t.get_id()
    c = HAS_T.get(k)
    if c is None:
        if len(HAS_T) > 300000:
            HAS_T.clear()
        c = (t, any(collect_apps([t], [EXP, LOG, SQRT, BOR]).values()))
        HAS_T[k] = c
    return c[1]


def enclosure(t, x, op):
    """rational bounds of a function value at a literal (correctly rounded decimal arithmetic, widened)"""
    import decimal
    f = x.as_fraction()
    if abs(f) > 500:
        return []
    ctx = decimal.Context(prec=40)
    a = ctx.divide(decimal.Decimal(f.numerator), decimal.Decimal(f.denominator))
    v = Fraction(getattr(ctx, op)(a))
    w = abs(v) * Fraction(1, 10 ** 20) + Fraction(1, 10 ** 20)
    if op == "exp":
        w = abs(v) * Fraction(1, 10 ** 20)
    lo, hi = v - w, v + w
    return [t >= z3.RealVal(str(lo)), t <= z3.RealVal(str(hi))]


def transcendental_axioms(terms):
    terms = [t for t in terms if has_transcendental(t)]
    if not terms:
        return []
    apps = collect_apps(terms, [EXP, LOG, SQRT, BOR])
    ax = []
    exps, logs, sqs = apps["exp"], apps["log"], apps["sqrt"]
    if CTX.no_axioms:
        exps, logs, sqs = [], [], []
    # terms E(x) interacting: close once under log(exp(x)) = x, exp(log x) = x
    for e in exps:
        x = e.arg(0)
        ax.append(e > 0)
        ax.append(z3.Implies(x >= 0, e >= 1))
        ax.append(z3.Implies(x <= 0, e <= 1))
        ax.append(z3.Implies(x > 0, e > 1))
        ax.append(z3.Implies(x < 0, e < 1))
        ax.append(LOG(e) == x)
        ax.append(e >= 1 + x)
        ax.append(EXP(-x) * e == 1)
        if z3.is_rational_value(x):
            ax.extend(enclosure(e, x, "exp"))
    for l in logs:
        x = l.arg(0)
        if z3.is_rational_value(x) and x.as_fraction() > 0:
            ax.extend(enclosure(l, x, "ln"))
        ax.append(z3.Implies(x > 0, EXP(l) == x))
        ax.append(z3.Implies(x >= 1, l >= 0))
        ax.append(z3.Implies(z3.And(x > 0, x <= 1), l <= 0))
    for i in range(len(exps)):
        for j in range(i):
            a, b = exps[i], exps[j]
            ax.append((a.arg(0) < b.arg(0)) == (a < b))
            ax.append((a.arg(0) == b.arg(0)) == (a == b))
    for i in range(len(logs)):
        for j in range(i):
            a, b = logs[i], logs[j]
            ax.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) < b.arg(0)) == (a < b)))
            ax.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) == b.arg(0)) == (a == b)))
    for s in sqs:
        x = s.arg(0)
        if z3.is_rational_value(x) and x.as_fraction() > 0:
            ax.extend(enclosure(s, x, "sqrt"))
        ax.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
        ax.append(z3.Implies(x > 0, s > 0))
        ax.append(z3.Implies(x == 0, s == 0))
    for b in apps["bor"]:
        x, y = b.arg(0), b.arg(1)
        ax.append(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(b >= x, b >= y, b <= x + y)))
    return ax


# ---------------------------------------------------------------- string / bytes placeholders
STR_TAB = {}
BLOB_TAB = {}


def str_token(sv):
    for k, v in STR_TAB.items():
        if v is sv or (isinstance(v, SV) and isinstance(sv, SV) and v.kind == sv.kind and v.t.eq(sv.t) and not v.wrap and not sv.wrap):
            return f"\x01{k}\x02"
    k = len(STR_TAB) + 1
    STR_TAB[k] = sv
    return f"\x01{k}\x02"


def token_value(s):
    """str token -> symbolic value, or None"""
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("latin1")
    s = s.strip()
    if len(s) >= 3 and s[0] == "\x01" and s[-1] == "\x02" and s[1:-1].isdigit():
        return STR_TAB.get(int(s[1:-1]))
    return None


# ---------------------------------------------------------------- exploration
def assume(c, heavy=False):
    c = rawb(c)
    if c is True:
        return
    if c is False:
        raise PathEnd("assume false")
    p = CTX.path
    if heavy:
        p.heavy.append(c)
    else:
        p.pc.append(c)
        p.solver.add(c)


def add_lemma(vars_, body, name="", mk=None):
    CTX.path.lemmas.append(Lemma(list(vars_), body, name, mk))


def register_index(t):
    t = fold(t) if is_z(t) else t
    if isinstance(t, int):
        t = z3.IntVal(t)
    CTX.path.iterms.setdefault(t.get_id(), t)
    return t


def _check(extra):
    p = CTX.path
    CTX.stats["feas"] += 1
    t0 = time.time()
    if CTX.deadline and t0 > CTX.deadline:
        raise EngineLimit("time budget")
    r = p.solver.check(*extra)
    CTX.stats["feas_s"] += time.time() - t0
    return r


def entails(c):
    """Does the current path condition (light part + axioms of the terms involved) imply c?"""
    c = rawb(c) if not is_z(c) else c
    if isinstance(c, bool):
        return c
    # what follows stays true on this path; what does not is re-examined once new facts arrive
    memo = CTX.path.memo
    k = c.get_id()
    m = memo.get(k)
    mark = (len(CTX.path.pc), len(CTX.path.heavy))
    if m is not None and (m[1] or m[2] == mark):
        return m[1]
    r = _entails(c)
    memo[k] = (c, r, mark)
    return r


# ---- interval evaluation: a cheap sufficient test tried before the solver
def _num(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def interval(t, env=None):
    """(lo, hi) that hold for every value of the leaves (leaves: marked non-negative terms, element ranges of this path);
    env: bounds of particular subterms that hold where t is evaluated (branch conditions)"""
    if env:
        r = _interval(t, env)
        x = env.get(t.get_id())
        if x is not None:
            return (_optmax(r[0], x[0]), _optmin(r[1], x[1]))
        return r
    memo = CTX.path.__dict__.setdefault("ivmemo", {})
    k = t.get_id()
    m = memo.get(k)
    if m is not None:
        return m[1]
    r = _interval(t, None)
    memo[k] = (t, r)
    return r


def _refine(c, truth, env):
    """bounds implied by c being true (or false)"""
    out = dict(env or {})
    todo = [(c, truth)]
    while todo:
        c, truth = todo.pop()
        if z3.is_not(c):
            todo.append((c.arg(0), not truth))
            continue
        if (z3.is_and(c) and truth) or (z3.is_or(c) and not truth):
            todo.extend((x, truth) for x in c.children())
            continue
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            continue
        p, q = c.children()
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            p, q = q, p
        if not truth:
            p, q = q, p
        # p <= q (or <)
        v = _num(q)
        if v is not None:
            o = out.get(p.get_id(), (None, None))
            out[p.get_id()] = (o[0], _optmin(o[1], v))
        v = _num(p)
        if v is not None:
            o = out.get(q.get_id(), (None, None))
            out[q.get_id()] = (_optmax(o[0], v), o[1])
    return out


def _fl(x):
    return None if x is None else Fraction(x.numerator // x.denominator)


def _interval(t, env):
    v = _num(t)
    if v is not None:
        return (v, v)
    d = t.decl().kind()
    K = z3
    if d == K.Z3_OP_ADD:
        lo = hi = Fraction(0)
        for c in t.children():
            a, b = interval(c, env)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return (lo, hi)
    if d == K.Z3_OP_SUB and t.num_args() == 2:
        a, b = interval(t.arg(0), env)
        c, e = interval(t.arg(1), env)
        return (None if a is None or e is None else a - e, None if b is None or c is None else b - c)
    if d == K.Z3_OP_UMINUS:
        a, b = interval(t.arg(0), env)
        return (None if b is None else -b, None if a is None else -a)
    if d == K.Z3_OP_MUL:
        r = (Fraction(1), Fraction(1))
        for c in t.children():
            x = interval(c, env)
            r = _imul(r, x)
        return r
    if d == K.Z3_OP_TO_INT:
        a, b = interval(t.arg(0), env)
        return (_fl(a), _fl(b))
    if d == K.Z3_OP_TO_REAL:
        return interval(t.arg(0), env)
    if d == K.Z3_OP_MOD:
        m = _num(t.arg(1))
        if m is not None and m > 0:
            a, b = interval(t.arg(0), env)
            if a is not None and b is not None and 0 <= a and b < m:
                return (a, b)
            return (Fraction(0), m - 1)
        return (Fraction(0), None)
    if d in (K.Z3_OP_IDIV, K.Z3_OP_DIV):
        m = _num(t.arg(1))
        if m is not None and m > 0:
            a, b = interval(t.arg(0), env)
            a = None if a is None else a / m
            b = None if b is None else b / m
            return (a, b) if d == K.Z3_OP_DIV else (_fl(a), _fl(b))
        return (None, None)
    if d == K.Z3_OP_ITE:
        c, a, b = t.children()
        # min / max patterns
        cond = c
        ia, ib = interval(a, env), interval(b, env)
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        ck = c.decl().kind()
        if ck in (K.Z3_OP_LT, K.Z3_OP_LE, K.Z3_OP_GT, K.Z3_OP_GE):
            p, q = c.children()
            small = None          # the term known to be the smaller one when c holds
            if ck in (K.Z3_OP_LT, K.Z3_OP_LE):
                small, big = p, q
            else:
                small, big = q, p
            if neg:
                small, big = big, small
            mn = mx = False
            if a.eq(small) and b.eq(big):
                mn = True
            elif a.eq(big) and b.eq(small):
                mx = True
            if mn:
                return (None if ia[0] is None or ib[0] is None else min(ia[0], ib[0]),
                        _optmin(ia[1], ib[1]))
            if mx:
                return (_optmax(ia[0], ib[0]),
                        None if ia[1] is None or ib[1] is None else max(ia[1], ib[1]))
        ia = interval(a, _refine(cond, True, env))
        ib = interval(b, _refine(cond, False, env))
        return (None if ia[0] is None or ib[0] is None else min(ia[0], ib[0]),
                None if ia[1] is None or ib[1] is None else max(ia[1], ib[1]))
    if CTX.nonneg.get(t.get_id()) is not None:
        return (Fraction(0), CTX.path.__dict__.get("upper", {}).get(t.get_id(), (None, None))[1])
    return (None, None)


def _optmin(a, b):
    return b if a is None else a if b is None else min(a, b)


def _optmax(a, b):
    return b if a is None else a if b is None else max(a, b)


def _imul(x, y):
    (a, b), (c, d) = x, y
    if None not in (a, b, c, d):
        p = [a * c, a * d, b * c, b * d]
        return (min(p), max(p))
    if x == (0, 0) or y == (0, 0):
        return (Fraction(0), Fraction(0))
    if a is not None and a >= 0 and c is not None and c >= 0:
        return (a * c, None if b is None or d is None else b * d)
    if c is not None and c == d:
        if c > 0:
            return (None if a is None else a * c, None if b is None else b * c)
        return (None if b is None else b * c, None if a is None else a * c)
    if a is not None and a == b:
        return _imul(y, x)
    return (None, None)


def quick(c):
    """True if interval reasoning alone shows c (a z3 Bool)"""
    if z3.is_true(c):
        return True
    if z3.is_and(c):
        return all(quick(x) for x in c.children())
    if z3.is_or(c):
        return any(quick(x) for x in c.children())
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
        return False
    p, q = c.children()
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        p, q = q, p
        k = z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE
    if neg:
        p, q = q, p
        k = z3.Z3_OP_LE if k == z3.Z3_OP_LT else z3.Z3_OP_LT
    hi, lo = interval(p)[1], interval(q)[0]
    if hi is None or lo is None:
        return False
    return hi < lo if k == z3.Z3_OP_LT else hi <= lo


def _entails(c):
    if quick(c):
        return True
    ax = transcendental_axioms([c])
    nc = bnot(c)
    r = _check([nc] + ax)
    if r == z3.unsat:
        return True
    if r == z3.sat and not ax:
        return False
    # slower attempt with everything
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*CTX.path.pc)
    s.add(*instances([c]))
    s.add(*CTX.path.heavy)
    s.add(*ax)
    s.add(nc)
    return s.check() == z3.unsat


def decide(n, feasible=None):
    """n-way decision. feasible: list of z3 conditions (same length), added to the pc."""
    p = CTX.path
    if CTX.merging:
        opts = [j for j in range(n) if feasible is None or feasible[j] is True or feasible[j] is not False and _check([feasible[j]]) != z3.unsat]
        if len(opts) != 1:
            raise MergeFail()
        return opts[0]
    k = len(p.taken)
    if k < len(p.prefix):
        ch = p.prefix[k][0]
        p.taken.append(p.prefix[k])
        if feasible is not None:
            c = feasible[ch]
            if not isinstance(c, bool):
                p.pc.append(c)
                if len(p.prefix[k][1]) > 1:
                    p.branch.append(c)
                p.solver.add(c)
        return ch
    if k >= CTX.max_forks:
        raise EngineLimit("too many decisions on one path")
    opts = []
    for j in range(n):
        if feasible is None:
            opts.append(j)
            continue
        c = feasible[j]
        if c is False:
            continue
        if c is True:
            opts.append(j)
            continue
        if j == n - 1 and not opts:
            opts.append(j)      # the last one must be feasible (pc itself is satisfiable)
            continue
        if _check([c]) != z3.unsat:
            opts.append(j)
    if not opts:
        raise PathEnd("infeasible")
    ch = opts[0]
    p.taken.append((ch, opts))
    if feasible is not None:
        c = feasible[ch]
        if not isinstance(c, bool):
            p.pc.append(c)
            if len(opts) > 1:       # otherwise the path implies it
                p.branch.append(c)
            p.solver.add(c)
    return ch


def merged(c, ta, tb):
    """ta() if c else tb() as one value, without splitting the path; None when a branch needs to split it"""
    p = CTX.path
    vals = []
    for cc, th in ((c, ta), (bnot(c), tb)):
        n, nt, nb = len(p.pc), len(p.taken), len(p.branch)
        p.solver.push()
        p.pc.append(cc)
        p.solver.add(cc)
        CTX.merging += 1
        ok = False
        try:
            if p.solver.check() == z3.unsat:
                return None
            v = th()
            ok = isinstance(v, (int, Fraction, SV)) and not isinstance(v, bool) and kind_of(v) in "ir"
        except (MergeFail, PathEnd, Exception):
            pass
        finally:
            CTX.merging -= 1
            p.solver.pop()
            new = p.pc[n + 1:]
            del p.pc[n:], p.taken[nt:], p.branch[nb:]
            ranges = p.__dict__.get("range_ids", ())
            for f in new:
                f = f if f.get_id() in ranges else z3.Implies(cc, f)
                p.pc.append(f)
                p.solver.add(f)
        if not ok:
            return None
        vals.append(v)
    if "r" not in (kind_of(vals[0]), kind_of(vals[1])):
        return None
    return ite(c, vals[0], vals[1])


def fork(c):
    """Two-way split on z3 Bool c; returns the python truth value on this path."""
    if CTX.no_fork:
        if entails(c):
            return True
        if entails(bnot(c)):
            return False
        raise Unsupported("branch on an undetermined symbolic condition in a ghost context")
    return decide(2, [c, bnot(c)]) == 0


def explore(fn, on_path, base=None):
    """Run fn() on every feasible path.  on_path(path, result) per finished path."""
    stack = [[]]
    n = 0
    outer = CTX.path
    nn, bb, fw = dict(CTX.nonneg), dict(CTX_BOUNDS), CTX.field_w
    while stack:
        prefix = stack.pop()
        n += 1
        if n > CTX.max_paths:
            raise EngineLimit("too many paths")
        # nested explorations share the outer solver inside a scope
        shared = base is not None and outer is not None
        p = Path(prefix, outer.solver if shared else None)
        if base is not None:
            base(p)
        if shared:
            p.solver.push()
        CTX.path = p
        CTX.field_w = {}
        ok = False
        try:
            res = fn()
            ok = True
        except PathEnd:
            res = None
        finally:
            CTX.path = outer
            if shared:
                p.solver.pop()
            # facts about terms learnt on this path do not leave it
            CTX.nonneg.clear()
            CTX.nonneg.update(nn)
            CTX_BOUNDS.clear()
            CTX_BOUNDS.update(bb)
            CTX.field_w = fw
        CTX.stats["paths"] += 1
        # schedule unexplored siblings of newly taken decisions
        for k in range(len(prefix), len(p.taken)):
            ch, opts = p.taken[k]
            for o in opts:
                if o != ch and o > ch:
                    stack.append(p.taken[:k] + [(o, opts)])
        if ok:
            on_path(p, res)
    return n


def explore_inner(fn, on_path):
    """Nested exploration (loop bodies): starts from the current path's assumptions."""
    outer = CTX.path

    def base(p):
        p.pc = list(outer.pc)
        p.heavy = list(outer.heavy)
        p.lemmas = list(outer.lemmas)
        p.iterms = dict(outer.iterms)
        p.memo = {k: m for k, m in outer.memo.items() if m[1]}
        p.base_pc = len(outer.pc)
        p.base_heavy = len(outer.heavy)
        p.base_lemmas = len(outer.lemmas)

    return explore(fn, on_path, base)


# ---------------------------------------------------------------- substitution
def subst_val(v, pairs):
    """Substitute z3 constants in a scalar value."""
    if isinstance(v, SV):
        t = z3.substitute(v.t, *pairs)
        bits = None
        if v.bits is not None:
            bits = [(lo, w, f if isinstance(f, int) else norm_lin(z3.substitute(f, *pairs))) for lo, w, f in v.bits]
        if v.kind == "i" and bits is None and not v.wrap:
            t = norm_lin(t)
            if isinstance(t, int):
                return t
        elif bits is None:
            c = const_of(t)
            if c is not None:
                return Fraction(c) if v.kind == "r" else c
        return SV(norm_z(t), v.kind, bits=bits, wrap=v.wrap, shr=v.shr, dt=v.dt)
    if is_z(v):
        return z3.substitute(v, *pairs)
    return v


def subst_b(c, pairs):
    if isinstance(c, bool):
        return c
    r = z3.substitute(c, *pairs)
    s = z3.simplify(r)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return r


def same(a, b):
    """Structural identity of two scalars."""
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.kind == b.kind and a.wrap == b.wrap and a.shr == b.shr and a.t.eq(b.t)
    if isinstance(a, SV) or isinstance(b, SV):
        return False
    return type(a) is type(b) and a == b


class GV:
    """finite value v under condition c, infinite otherwise (masked entries inside a reduction)"""
    kind = "r"

    def __init__(self, v, c):
        self.v, self.c = v, c


def guard_ite(c, a, b):
    """c ? a : b where one side is (partly) +-inf"""
    def parts(x):
        if isinstance(x, float):
            return None, False
        if isinstance(x, GV):
            return x.v, x.c
        return x, True
    va, ca = parts(a)
    vb, cb = parts(b)
    cond = bor_(band(c, ca), band(bnot(c), cb))
    if cond is False:
        return a
    v = vb if va is None else va if vb is None else ite(c, va, vb)
    return GV(v, cond)


def settled(c):
    """c, or its truth value if it (or its negation) is literally one of the path's facts"""
    if isinstance(c, bool) or CTX.path is None or CTX.merging:
        return c
    p = CTX.path
    st = p.__dict__.setdefault("facts_seen", [0, {}])
    while st[0] < len(p.pc):
        f = p.pc[st[0]]
        st[0] += 1
        if is_z(f) and not z3.is_or(f):
            f = z3.simplify(f)
            st[1][f.get_id()] = f
    s = z3.simplify(c)
    if z3.is_true(s) or s.get_id() in st[1]:
        return True
    if z3.is_false(s) or z3.simplify(z3.Not(s)).get_id() in st[1]:
        return False
    return c


def ite(c, a, b):
    """Scalar if-then-else with folding."""
    c = rawb(c)
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, GV) or isinstance(b, GV) or CTX.no_fork and (isinstance(a, float) or isinstance(b, float)):
        return guard_ite(c, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if ka == "b" and kb == "b":
        return mk(z3.If(c, zb(rawb(a)), zb(rawb(b))), "b")
    if isinstance(a, float) or isinstance(b, float):
        if decide(2, [c, bnot(c)]) == 0 if not CTX.no_fork else fork(c):
            return a
        return b
    if "r" in (ka, kb):
        return mk(z3.If(c, zreal(a), zreal(b)), "r")
    wrap = isinstance(a, SV) and a.wrap or isinstance(b, SV) and b.wrap
    if wrap:
        if CTX.no_fork:
            return mk(z3.If(c, norm_z(raw(a)), norm_z(raw(b))), "i")
        return a if fork(c) else b
    return mk(z3.If(c, norm_z(raw(a)), norm_z(raw(b))), "i")


def eq_consts(c):
    """the conjuncts  term == constant  of a condition: {term id: constant}"""
    out = {}
    if not is_z(c):
        return out
    stack = [c]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack += x.children()
        elif z3.is_eq(x):
            a, b = x.arg(0), x.arg(1)
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b):
                out[a.get_id()] = b.as_long()
    return out


def exclusive(p, q):
    return any(k in q and q[k] != v for k, v in p.items())


class FirstOf:
    """condition that option k is the first one whose condition holds, computed when asked for"""

    def __init__(self, conds):
        self.conds = conds
        self.eqs = {}

    def eq(self, k):
        r = self.eqs.get(k)
        if r is None:
            r = self.eqs[k] = eq_consts(self.conds[k])
        return r

    def __len__(self):
        return len(self.conds)

    def __getitem__(self, k):
        q = self.eq(k)
        c = band(*[bnot(self.conds[j]) for j in range(k) if not exclusive(self.eq(j), q)], self.conds[k])
        return c


def simp_b(c):
    """simplified condition"""
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def choose(options):
    """options: [(cond, thunk-or-value)], conditions exhaustive.  Forks unless in ite mode."""
    opts = [(c, v) for c, v in options if c is not False]
    for n, (c, v) in enumerate(opts):
        if c is True:
            opts = opts[:n + 1]
            break
    if len(opts) == 1:
        return opts[0][1]
    # drop branches whose condition contradicts the path cheaply
    if CTX.no_fork:
        r = opts[-1][1]
        for c, v in reversed(opts[:-1]):
            r = ite(c, v, r)
        return r
    if CTX.merging:
        return opts[decide(len(opts), FirstOf([c for c, v in opts]))][1]
    memo = CTX.path.__dict__.setdefault("chosen", {})        # the path condition settles a choice once it is made
    key = tuple(c if c is True else c.get_id() for c, v in opts)
    m = memo.get(key)
    if m is None:
        m = memo[key] = (decide(len(opts), FirstOf([c for c, v in opts])), [c for c, v in opts])
    return opts[m[0]][1]


# ---------------------------------------------------------------- proving
def uf_apps(t, acc, seen):
    """applications of uninterpreted functions in t"""
    st = [t]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen[k] = x
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.setdefault(x.decl().get_id(), []).append(x)
            st.extend(x.children())


def triggers(lem):
    """[(application pattern, {position: variable number})] of the lemma body, those with most variables first"""
    tr = lem.__dict__.get("trig")
    if tr is None:
        acc = {}
        uf_apps(lem.body, acc, {})
        tr = []
        ids = {v.get_id(): k for k, v in enumerate(lem.vars)}
        for apps in acc.values():
            for a in apps:
                pos = {}
                for k, x in enumerate(a.children()):
                    if x.get_id() in ids:
                        pos[k] = ids[x.get_id()]
                    elif z3.is_int(x) and not z3.is_int_value(x):
                        af = affine_in(x, lem.vars)
                        if af is not None:
                            pos[k] = af
                if pos and not any(x[0].eq(a) for x in tr):
                    tr.append((a, pos))
        tr.sort(key=lambda x: -len(tvars(x[1])))
        lem.trig = tr
    return tr


def tvars(pos):
    return {v[0] if isinstance(v, tuple) else v for v in pos.values()}


def affine_in(x, vs):
    """(variable number, c, d) when x is c*v + d for exactly one of the variables, c a non-zero constant"""
    seen, st, used = set(), [x], set()
    ids = {v.get_id(): k for k, v in enumerate(vs)}
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in ids:
            used.add(ids[t.get_id()])
        st.extend(t.children())
    if len(used) != 1:
        return None
    k = used.pop()
    v = vs[k]
    d = z3.simplify(z3.substitute(x, (v, z3.IntVal(0))))
    c = z3.simplify(z3.substitute(x, (v, z3.IntVal(1))) - d)
    if not z3.is_int_value(c) or c.as_long() == 0:
        return None
    r = z3.simplify(x - (c * v + d), som=True)
    if not (z3.is_int_value(r) and r.as_long() == 0):
        return None
    return (k, c.as_long(), d)


def divide(y, c):
    """the term y / c when every coefficient of the linear term y is a multiple of c"""
    if c == 1:
        return y
    if c == -1:
        return z3.simplify(-y)
    parts = y.children() if z3.is_add(y) else [y]
    out = []
    for p in parts:
        if z3.is_int_value(p):
            if p.as_long() % c:
                return None
            out.append(z3.IntVal(p.as_long() // c))
        elif z3.is_mul(p) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() % c == 0:
            q = p.arg(0).as_long() // c
            r = p.children()[1:]
            r = r[0] if len(r) == 1 else z3.Product(*r)
            out.append(r if q == 1 else q * r)
        else:
            return None
    return norm_lin(z3.Sum(*out)) if len(out) > 1 else out[0]


def trigger_combos(lem, goal_terms, insts, terms):
    """variable assignments under which some applications of the lemma body become terms of the goal or of the path's facts"""
    p = CTX.path
    n = len(lem.vars)
    key = (len(p.pc), len(p.heavy))
    base = p.__dict__.get("ground")
    if base is None or base[0] > key:
        base = p.ground = [(0, 0), {}, {}, []]
    for src, k in ((p.pc, base[0][0]), (p.heavy, base[0][1])):
        for f in src[k:]:
            uf_apps(f, base[1], base[2])
    base[0] = key
    acc = {k: list(v) for k, v in base[1].items()}
    seen = dict(base[2])
    for g in goal_terms:
        uf_apps(g if is_z(g) else z3.BoolVal(bool(g)), acc, seen)
    for g in insts[-2000:]:
        uf_apps(g, acc, seen)
    lits = {t.get_id(): t for t in terms}

    def match(partial, tr, need):
        out = []
        a, pos = tr
        for g in acc.get(a.decl().get_id(), ()):
            m = dict(partial)
            ok = True
            for k, x in enumerate(g.children()):
                v = pos.get(k)
                if v is None:
                    pat = a.arg(k)
                    if z3.is_int_value(pat) and z3.is_int_value(x) and pat.as_long() != x.as_long():
                        ok = False
                        break
                    continue
                if isinstance(v, tuple):
                    v, c, d = v
                    x = divide(z3.simplify(x - d, som=True), c)
                    if x is None:
                        ok = False
                        break
                    x = norm_lin(x)
                if v in m:
                    if not m[v].eq(x):
                        ok = False
                        break
                else:
                    m[v] = x
            if ok and not any(all(m[k].eq(o[k]) for k in m) for o in out if o.keys() == m.keys()):
                out.append(m)
        return out
    state = [{}]
    for tr in triggers(lem):
        have = set(state[0])
        if not (tvars(tr[1]) - have):
            continue
        nxt = []
        for m in state:
            nxt.extend(match(m, tr, None))
            if len(nxt) > 600:
                break
        if nxt:
            state = nxt
        if len(state[0]) == n:
            break
    out = []
    for m in state:
        free = [k for k in range(n) if k not in m]
        if len(terms) ** len(free) * len(state) > 2000:
            continue
        for c in product(terms, repeat=len(free)):
            mm = dict(m)
            mm.update(zip(free, c))
            out.append(tuple(mm[k] for k in range(n)))
    return out


def instances(goal_terms):
    """Instantiate quantified lemmas at registered index terms (two rounds)."""
    p = CTX.path
    out = []
    if not p.lemmas:
        return out
    seen = set()
    terms = list(p.iterms.values())
    for lem in p.lemmas:
        n = len(lem.vars)
        if n == 0:
            out.append(lem.body)
            continue
        if len(terms) ** n > (4000 if n == 1 else 150):
            combos = trigger_combos(lem, goal_terms, out, terms)
        else:
            combos = product(terms, repeat=n)
            if lem.name == "no witness":
                combos = list(combos) + trigger_combos(lem, goal_terms, out, [])
        for combo in combos:
            b = z3.substitute(lem.body, *list(zip(lem.vars, combo)))
            s = z3.simplify(b)
            if z3.is_true(s):
                continue
            i = s.get_id()
            if i in seen:
                continue
            seen.add(i)
            out.append(s)
    return out


class Oblig:
    __slots__ = ("name", "status", "model", "pc", "goal", "time", "backend", "scenario", "detail")

    def __init__(self, name):
        self.name = name
        self.status = "?"
        self.model = None
        self.detail = ""


def abstract_toint(terms):
    """Replace ToInt(x) by a fresh real-valued integer y with y <= x < y+1 (sound weakening)."""
    apps = []
    seen = set()
    stack = list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_TO_INT:
                apps.append(t)
            stack.extend(t.children())
    return apps


SYMS = {}


def _relevant(goal, hyps):
    """Hypotheses sharing an uninterpreted symbol (transitively) with the goal."""
    def syms(t):
        k = t.get_id()
        c = SYMS.get(k)
        if c is not None:
            return c[1]
        if len(SYMS) > 200000:
            SYMS.clear()
        r = syms_(t)
        SYMS[k] = (t, r)
        return r

    def syms_(t):
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name() if x.num_args() == 0 else x.decl().name() + str(x.get_id()))
                st.extend(x.children())
        return out
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    used = [False] * len(hs)
    changed = True
    while changed:
        changed = False
        for k, (h, s) in enumerate(hs):
            if not used[k] and s & cur:
                used[k] = True
                cur |= s
                changed = True
    return [h for k, (h, s) in enumerate(hs) if used[k]]


SYMS2 = {}


def app_ids(t):
    """ids of the uninterpreted applications and non-integer constants in t"""
    k = t.get_id()
    c = SYMS2.get(k)
    if c is not None:
        return c[1]
    if len(SYMS2) > 200000:
        SYMS2.clear()
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or x.sort() != z3.IntSort()):
                out.add(x.get_id())
            st.extend(x.children())
    SYMS2[k] = (t, out)
    return out


def _near(goal, hyps, depth):
    cur = set(app_ids(goal))
    if not cur:
        return None
    used = [False] * len(hyps)
    for _ in range(depth):
        nxt = set()
        for k, h in enumerate(hyps):
            if not used[k]:
                s = app_ids(h)
                if s & cur:
                    used[k] = True
                    nxt |= s
        cur |= nxt
    return [h for k, h in enumerate(hyps) if used[k]]


PROVE_CACHE = {}


def _solve(hyps, ngoal, timeout, tactic=None):
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*hyps)
    s.add(ngoal)
    r = s.check()
    return r, s


def _to_real_abs(hyps, ngoal):
    """Rewrite ToReal(int-term) occurrences of opaque int terms as reals for nlsat."""
    terms = hyps + [ngoal]
    toint = abstract_toint(terms)
    subs, extra = [], []
    for n, t in enumerate(toint):
        y = z3.Real(f"absint!{n}")
        subs.append((t, y))
    # ToReal(ToInt(x)) -> y ; drop hyps still containing ToInt in int position
    pairs = []
    for t, y in subs:
        pairs.append((z3.ToReal(t), y))
        extra.append(y <= t.arg(0))
        extra.append(t.arg(0) < y + 1)
    out = []
    for h in terms:
        out.append(z3.simplify(z3.substitute(h, *pairs)) if pairs else h)
    ex = [z3.substitute(e, *pairs) if pairs else e for e in extra]
    keep = [h for h in out[:-1] if not abstract_toint([h])]
    if abstract_toint([out[-1]]):
        return None
    return keep + ex, out[-1]


def check_valid(goal, timeout=8.0, extra_hyps=()):
    """Returns (status, model, backend): status in proved / refuted / unknown."""
    goal = rawb(goal) if not is_z(goal) else goal
    if goal is True:
        return "proved", None, "syntactic"
    p = CTX.path
    if goal is False:
        goal = z3.BoolVal(False)
    if not extra_hyps and FAST:
        # most obligations follow from the light facts already in the incremental solver
        p.solver.set("timeout", 150)
        r = p.solver.check(bnot(goal))
        p.solver.set("timeout", FEAS_MS)
        if r == z3.unsat:
            return "proved", None, "z3"
    hyps = list(p.pc) + list(p.heavy) + list(extra_hyps) + instances([goal])
    if len(hyps) > len(p.pc) + 25:
        # first with the facts about the terms of the goal only
        last = -1
        for depth, tmo in ((1, 0.5), (2, 1.0)):
            nr = _near(goal, hyps[len(p.pc):], depth)
            if nr is None or len(nr) == last or len(nr) > 0.8 * (len(hyps) - len(p.pc)):
                break
            last = len(nr)
            nr = list(p.pc) + nr
            nr += transcendental_axioms(nr + [goal])
            if _solve(nr, bnot(goal), tmo)[0] == z3.unsat:
                return "proved", None, "z3"
    # transcendental axioms, two rounds (new terms appear in axioms)
    ax = transcendental_axioms(hyps + [goal])
    hyps += ax
    ng = bnot(goal)
    rel = _relevant(goal, hyps)
    model = None
    plan = [("z3", rel, min(2.0, timeout)), ]
    r, s = _solve(rel, ng, min(2.0, timeout))
    if r == z3.unsat:
        return "proved", None, "z3"
    if r == z3.sat:
        # confirm with all hypotheses (irrelevant ones may be contradictory = dead path)
        r2, s2 = _solve(hyps, ng, timeout)
        if r2 == z3.unsat:
            return "proved", None, "z3"
        if r2 == z3.sat:
            return "refuted", s2.model(), "z3"
        return "refuted", s.model(), "z3"
    ab = _to_real_abs(rel, ng)
    if ab is not None:
        try:
            r, s = _solve(ab[0], ab[1], timeout, "qfnra-nlsat")
            if r == z3.unsat:
                return "proved", None, "z3-nlsat"
        except z3.Z3Exception:
            pass
        r, s = _solve(ab[0], ab[1], timeout)
        if r == z3.unsat:
            return "proved", None, "z3"
    r, s = _solve(hyps, ng, timeout * 2)
    if r == z3.unsat:
        return "proved", None, "z3"
    if r == z3.sat:
        return "refuted", s.model(), "z3"
    st = cvc5_check(rel, ng, timeout)
    if st == "unsat":
        return "proved", None, "cvc5"
    return "unknown", None, "z3+cvc5"


def cvc5_check(hyps, ngoal, timeout):
    try:
        import cvc5
        from cvc5 import InputParser, Solver, SymbolManager, InputLanguage
    except Exception:
        return "unknown"
    s = z3.Solver()
    s.add(*hyps)
    s.add(ngoal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        sm = SymbolManager(tm)
        ip = InputParser(slv, sm)
        ip.setStringInput(InputLanguage.SMT_LIB_2_6, txt, "q")
        res = "unknown"
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
        return res
    except Exception:
        return "unknown"


def prove(goal, name):
    """Generate and discharge one named obligation on the current path."""
    t0 = time.time()
    o = Oblig(name)
    p = CTX.path
    st, model, be = check_valid(goal)
    o.status, o.model, o.backend = st, model, be
    o.time = time.time() - t0
    o.pc = list(p.pc)
    o.goal = goal
    CTX.stats["prove"] += 1
    CTX.stats["prove_s"] += o.time
    CTX.obligs.append(o)
    if CTX.on_prove:
        CTX.on_prove(o)
    return st == "proved"
