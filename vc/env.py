"""Scenarios: a contract written once and interpreted twice.

SymEnv   inputs are arbitrary symbols, the real source runs in the symbolic world and every claim is an
         obligation for the solver (for all inputs).
ConcEnv  inputs are concrete (random, or taken from a solver counterexample), the real package runs and
         every claim is evaluated.  Used to replay counterexamples and as bounded stand-in.
"""
import math
import os
import random
import re
import shutil
import tempfile
import traceback
from fractions import Fraction
from itertools import product


HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE_NAMES = re.compile(r"'(Arr|SV|SymB|SymS|Buf|MaskedRows|Selection|FakeFile|FakePath|FakeBytesIO|Blob|SubBlob|DType|FlatIter|GV|Tensor|Device|Values)'|z3|BoolRef|ArithRef|module 'numpy|module 'fake")
MODELLED = re.compile(r"unsized object|0-d array|Cannot cast ufunc|float\(\) argument|bytes-like object is required")


class ScenarioSkip(BaseException):
    """concrete input outside the scenario's precondition"""


# ====================================================================== symbolic
class Exists:
    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn = lo, hi, fn


class SymEnv:
    sym = True

    def __init__(self, world, fs):
        from . import core, arrays
        self.C, self.A = core, arrays
        self.world = world
        self.fs = fs
        self.facts = []
        self.scenario = ""
        self.decls = {}        # name -> ("dim"/"array"/..., z3 object, info) for counterexample replay
        core.CTX.path.env = self

    # -- modules
    def mod(self, name="gsply"):
        return self.world.load(name)

    def pure(self, module, fname):
        """Treat a function as a deterministic function of its arguments: the first call runs its real body, a later call
        has to prove that its arguments equal those of the first and then yields the same results."""
        import inspect
        from .arrays import Arr
        m = self.mod(module)
        orig = getattr(m, fname, None)
        if orig is None:
            raise self.C.Unsupported(f"{module}.{fname} is not there")
        sig = inspect.signature(orig)
        memo = []

        def fresh(x):
            if isinstance(x, Arr):
                return x.clone() if x.torch else x.copy()
            if isinstance(x, tuple):
                return tuple(fresh(y) for y in x)
            return x

        def freeze(v):
            if isinstance(v, dict):
                return {n: freeze(x) for n, x in v.items()}
            if isinstance(v, tuple):
                return tuple(freeze(x) for x in v)
            return self.freeze(v) if isinstance(v, Arr) else v

        def equal(x, v, name):
            if isinstance(v, dict) or isinstance(v, tuple):
                self.prove(type(x) is type(v) and len(x) == len(v), name)
                for n in (v if isinstance(v, dict) else range(len(v))):
                    equal(x[n], v[n], f"{name}:{n}")
            elif isinstance(v, Arr) and isinstance(x, Arr):
                self.same_array(x, v, name)
            elif isinstance(v, Arr) or isinstance(x, Arr) or v is None or x is None:
                self.prove(v is None and x is None, name)
            else:
                self.prove(x == v, name)

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            if not memo:
                frozen = freeze(args)
                r = orig(*a, **k)
                memo.append((frozen, fresh(r)))
                return r
            equal(args, memo[0][0], f"same-arguments:{fname}")
            return fresh(memo[0][1])
        setattr(m, fname, call)

    @property
    def np(self):
        return self.world.fakes["numpy"]

    @property
    def torch(self):
        return self.world.fakes["torch"]

    # -- inputs
    def dim(self, name, lo=0, hi=None):
        C = self.C
        import z3
        t = z3.Int(name)
        C.mark_nonneg(t) if lo >= 0 else None
        C.assume(t >= lo)
        if hi is not None:
            C.assume(t <= hi)
            if lo >= 0:
                C.set_bound(t, hi + 1)
        self.decls[name] = ("int", t)
        return C.mk(t, "i")

    integer = dim

    def int_any(self, name):
        import z3
        t = z3.Int(name)
        self.decls[name] = ("int", t)
        return self.C.mk(t, "i")

    def length(self, name, near):
        """any non-negative number (concretely: often close to the given one)"""
        return self.dim(name)

    def real(self, name, lo=None, hi=None):
        import z3
        t = z3.Real(name)
        if lo is not None:
            self.C.assume(t >= self.C.zreal(Fraction(lo)))
        if hi is not None:
            self.C.assume(t <= self.C.zreal(Fraction(hi)))
        self.decls[name] = ("real", t)
        return self.C.mk(t, "r")

    def boolean(self, name):
        import z3
        t = z3.Bool(name)
        self.decls[name] = ("bool", t)
        return self.C.mk(t, "b")

    def pick(self, name, options):
        """one of finitely many concrete options, all explored"""
        k = self.C.decide(len(options))
        self.decls.setdefault("pick:" + name, ("pick", k))
        return options[k]

    def array(self, name, shape, dtype="float32", layout="c", lo=None, hi=None, torch=False, writeable=True, cols=None):
        """cols: [(first column, width, lo, hi)] value ranges of columns of a matrix"""
        A, C = self.A, self.C
        dt = A.ALL_DTYPES[dtype]
        shape = tuple(C.raw(s) for s in shape)
        cls = A.Arr
        if torch:
            from . import faketorch
            cls = faketorch.Tensor
        base_shape = shape
        if layout == "strided":
            base_shape = (C.iadd(C.imul(2, shape[0]), 1),) + shape[1:]
        elif layout == "cols":
            base_shape = shape[:-1] + (shape[-1] + 3,) if len(shape) > 1 else (C.iadd(C.imul(3, shape[0]), 1),)
        elif layout == "f":
            base_shape = shape[::-1]
        a = A.uf_array(name, base_shape, dt, cls)
        self.decls[name] = ("array", a.buf.uf, layout, shape, dtype)
        if lo is not None or hi is not None:
            inner = a.buf.fn
            done = set()
            zlo = None if lo is None else C.zreal(Fraction(lo))
            zhi = None if hi is None else C.zreal(Fraction(hi))

            def fn(idx):
                v = inner(idx)
                if isinstance(v, C.SV):
                    cs = []
                    if v.kind == "r":
                        if zlo is not None:
                            cs.append(v.t >= zlo)
                        if zhi is not None:
                            cs.append(v.t <= zhi)
                    else:
                        if lo is not None:
                            cs.append(v.t >= int(lo))
                            if lo >= 0:
                                C.mark_nonneg(v.t)
                        if hi is not None:
                            cs.append(v.t <= int(hi))
                    key = v.t.get_id()
                    seen = C.CTX.path.__dict__.setdefault("ranged2", {})
                    if key not in seen:
                        seen[key] = v.t
                        import z3
                        C.CTX.path.pc.append(z3.And(*cs))
                        C.CTX.path.solver.add(z3.And(*cs))
                return v
            a.buf.fn = fn
        if cols:
            assert layout in ("c", "strided")
            inner2 = a.buf.fn

            def fn2(idx):
                import z3
                v = inner2(idx)
                if isinstance(v, C.SV):
                    seen = C.CTX.path.__dict__.setdefault("ranged3", {})
                    if v.t.get_id() not in seen:
                        seen[v.t.get_id()] = v.t
                        for (c0, w, l, h) in cols:
                            g = C.band(C.ile(c0, idx[1]), C.ilt(idx[1], c0 + w))
                            if g is False:
                                continue
                            f = z3.And(v.t >= C.zreal(Fraction(l)), v.t <= C.zreal(Fraction(h)))
                            f = f if g is True else z3.Implies(g, f)
                            C.CTX.path.pc.append(f)
                            C.CTX.path.solver.add(f)
                return v
            a.buf.fn = fn2
        if layout == "strided":
            a = A.getitem(a, (slice(1, None, 2),)) if not C.is_z(shape[0]) else self._stride2(a, shape)
        elif layout == "cols":
            if len(shape) > 1:
                a = A.getitem(a, (Ellipsis, slice(1, 1 + shape[-1])))
            else:
                a = A.getitem(A.reshape(A.getitem(a, slice(0, C.lift_int(C.imul(3, shape[0])))), (shape[0], 3)), (slice(None), 1))
        elif layout == "f":
            a = a.transpose()
        a.buf.writeable = writeable
        return a

    def _stride2(self, a, shape):
        C, A = self.C, self.A
        n = shape[0]

        def fwd(idx):
            return (C.iadd(1, C.imul(2, idx[0])),) + tuple(idx[1:])

        def inv(si):
            d = C.isub(si[0], 1)
            return C.band(C.ieq(C.imod(d, 2), 0), C.ile(0, d)), (C.ifloordiv(d, 2),) + tuple(si[1:])
        st = (C.imul(2, a._strides[0]),) + tuple(a._strides[1:])
        return a._view((n,) + tuple(shape[1:]), fwd, inv, st)

    def path(self, name):
        return "/w/" + name

    def put_file(self, name, *parts):
        """parts: bytes or arrays"""
        from . import fakeio
        out = b""
        for p in parts:
            out += p if isinstance(p, bytes) else fakeio.array_bytes(p)
        self.fs.files["/w/" + name] = out
        return "/w/" + name

    def image(self, name, H, W, ch):
        """an encoded H x W texture: (its bytes, its texels)"""
        from . import fakesog
        a = self.array(name, (H, W, ch), "uint8")
        return fakesog.token("image", a), a

    def bundle(self, meta, files, kind):
        """a SOG bundle: zip bytes, a .sog file, or a folder; meta: None, raw bytes or a JSON structure"""
        from . import fakesog
        files = dict(files)
        if meta is not None:
            files["meta.json"] = meta if isinstance(meta, bytes) else fakesog.token("json", meta)
        if kind == "folder":
            self.fs.dirs.add("/w/scene")
            for n, b in files.items():
                self.fs.files["/w/scene/" + n] = b
            return "/w/scene"
        z = fakesog.token("zip", files)
        return z if kind == "bytes" else self.put_file("scene.sog", z)

    def text(self, fmt, *nums):
        """header text with %d replaced by (possibly symbolic) numbers"""
        return (fmt.replace("%d", "%s") % tuple(self.C.str_token(n) if isinstance(n, self.C.SV) else str(n) for n in nums)).encode("latin1")

    def file_bytes(self, path):
        from . import fakeio
        return self.fs.files.get(fakeio.norm(path))

    def file_exists(self, path):
        from . import fakeio
        return fakeio.norm(path) in self.fs.files

    def join(self, *parts):
        from . import fakeio
        return b"".join(p if isinstance(p, bytes) else fakeio.array_bytes(p) for p in parts)

    def blob_at(self, data, off, dtype):
        """element of dtype at byte offset off"""
        from . import fakeio
        return fakeio.read_at(data, self.C.raw(off), self.A.ALL_DTYPES[dtype])

    def nbytes(self, data):
        from . import fakeio
        return fakeio.vlen(data)

    def header_of(self, data):
        """leading text of a file up to and including end_header\\n, as (bytes, length)"""
        k = data.find(b"end_header\n")
        if k < 0:
            return None, 0
        return data[:k + 11], k + 11

    def text_eq(self, data, fmt, *nums):
        """Does text `data` equal fmt % nums?"""
        import re
        from . import fakeio
        C = self.C
        pa = re.split("(\x01\\d+\x02)", data.decode("latin1"))
        want = (fmt.replace("%d", "%s") % tuple("\x01%d\x02" % (10 ** 6 + k) for k in range(len(nums))))
        pb = re.split("(\x01\\d+\x02)", want)
        cs = []
        if len(pa) != len(pb):
            # numbers may be literal in the data
            a = data.decode("latin1")
            lit = fmt.replace("%d", "%s") % tuple(str(n) if not isinstance(n, C.SV) else "?" for n in nums)
            return a == lit
        for x, y in zip(pa, pb):
            tx = C.token_value(x)
            if y.startswith("\x01"):
                v = nums[int(y[1:-1]) - 10 ** 6]
                if tx is None:
                    return False
                cs.append(C.rawb(tx == v))
            elif x != y:
                return False
        return C.SymB(C.band(*cs))

    # -- logic
    def and_(self, *cs):
        return self.C.SymB(self.C.band(*[self.C.rawb(c) for c in cs]))

    def or_(self, *cs):
        return self.C.SymB(self.C.bor_(*[self.C.rawb(c) for c in cs]))

    def not_(self, c):
        return self.C.SymB(self.C.bnot(self.C.rawb(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return self.C.ite(c, a, b)

    def assume(self, c):
        if c is False:
            raise self.C.PathEnd("precondition")
        self.C.assume(c)

    def truth(self, c):
        """branch on c"""
        return bool(c) if not isinstance(c, self.C.SV) else bool(c)

    # -- arithmetic
    def exp(self, x):
        return self.C.uexp(x)

    def log(self, x):
        return self.C.ulog(x)

    def sqrt(self, x):
        return self.C.usqrt(x)

    def rint(self, x):
        return self.A.rint(x)

    def trunc(self, x):
        return self.A.cast_scalar(x, self.A.int64)

    def min(self, a, b):
        return self.A.smin(a, b)

    def max(self, a, b):
        return self.A.smax(a, b)

    def abs(self, x):
        return abs(x)

    def clip(self, x, lo, hi):
        return self.min(self.max(x, lo), hi)

    def q(self, s):
        return Fraction(s)

    def eq(self, a, b):
        r = a == b
        return r

    def le(self, a, b):
        return a <= b if isinstance(a, self.C.SV) or not isinstance(b, self.C.SV) else b >= a

    def lt(self, a, b):
        return a < b if isinstance(a, self.C.SV) or not isinstance(b, self.C.SV) else b > a

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def feq(self, a, b, rel=None, abs=None):
        return self.eq(a, b)

    def near(self, a, b, tol):
        d = a - b
        return self.and_(d <= tol, d >= -tol if not isinstance(tol, self.C.SV) else d >= 0 - tol)

    def u32(self, x):
        """value of a packed word as unsigned"""
        return self.A.cast_scalar(x, self.A.uint32)

    def bits(self, x, lo, width):
        """bit field of an unsigned word"""
        v = self.u32(x)
        return (v >> lo) & ((1 << width) - 1)

    # -- arrays
    def len(self, x):
        from .vbuiltins import v_len
        return v_len(x)

    def shape(self, a):
        return a.shape

    def dtype(self, a):
        return str(a._dtype) if hasattr(a, "_dtype") else str(a.dtype)

    def get(self, a, *idx):
        v = a.at(tuple(self.C.raw(i) for i in idx))
        return v

    def freeze(self, a):
        """contents of the array now"""
        if a is None:
            return None
        fn = a.snapshot()
        fr = type(a).from_fn(a._shape, a._dtype, fn)
        return fr

    def same_buffer(self, a, b):
        return a.buf is b.buf

    def is_tensor(self, a):
        return bool(a.torch)

    # -- claims
    def prove(self, c, name):
        if isinstance(c, Exists):
            return self._claim(c, self.scenario + "/" + name)
        return self.C.prove(c, self.scenario + "/" + name)

    def forall(self, shape, fn, name):
        """fn(*idx) -> claim, for every index tuple; each claim is one obligation per path"""
        C = self.C
        import z3
        dims = [C.raw(s) for s in shape]
        small = [k for k, d in enumerate(dims) if isinstance(d, int) and d <= 4]
        ranges = [range(dims[k]) for k in small]
        for combo in product(*ranges):
            fixed = dict(zip(small, combo))
            idx, cs = [], []
            for k, d in enumerate(dims):
                if k in fixed:
                    idx.append(fixed[k])
                    continue
                t = z3.Int(C.CTX.fresh_name("ix"))
                idx.append(t)
                cs.append(z3.And(t >= 0, t < C.norm_z(d)))

            def run():
                for t, c in zip([t for t in idx if C.is_z(t)], cs):
                    C.mark_nonneg(t)
                    C.assume(c)
                    C.register_index(t)
                for k, t in enumerate(idx):
                    if C.is_z(t) and isinstance(dims[k], int):
                        C.set_bound(t, dims[k])
                if cs and C.CTX.path.solver.check() == z3.unsat:
                    return
                r = fn(*[C.lift_int(t) for t in idx])
                if isinstance(r, dict):
                    for n, c in r.items():
                        self._claim(c, f"{self.scenario}/{name}:{n}")
                else:
                    self._claim(r, f"{self.scenario}/{name}")
            C.explore_inner(run, lambda p, r: None)

    def known(self, *claims):
        """facts established earlier by proof (for all indices), used here at one index"""
        for c in claims:
            for x in (c.values() if isinstance(c, dict) else [c]):
                self.C.assume(x, heavy=True)

    def consider(self, *terms):
        """index terms at which quantified facts are instantiated"""
        for t in terms:
            self.C.register_index(self.C.raw(t))

    def opaque(self):
        """exp, log and sqrt as arbitrary functions in this scenario (weaker, so sound)"""
        self.C.CTX.no_axioms = True

    def exists(self, lo, hi, fn):
        """claim: some i in [lo, hi) satisfies fn(i)  (for use with prove / forall)"""
        return Exists(lo, hi, fn)

    def derive(self, name, terms, hyps, goal):
        """goal(terms), shown as a lemma: the hypotheses are proved of the terms in their context, and the goal is proved of
        arbitrary values satisfying the hypotheses.  The goal is available as a fact afterwards."""
        C = self.C
        import z3
        for n, c in hyps(terms).items():
            if not C.prove(c, f"{self.scenario}/{name}:{n}"):
                return
        fresh = {}
        for n, v in terms.items():
            if isinstance(v, C.SV):
                sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[v.kind]
                fresh[n] = C.SV(z3.Const(C.CTX.fresh_name("g_" + n), sort), v.kind)
            else:
                fresh[n] = v

        def run():
            for c in hyps(fresh).values():
                C.assume(c)
            C.prove(goal(fresh), f"{self.scenario}/{name}")
        C.explore(run, lambda p, r: None)
        C.assume(goal(terms), heavy=True)

    def _claim(self, c, name):
        C = self.C
        if not isinstance(c, Exists):
            return C.prove(c, name)
        # refute the negation: suppose that no i satisfies fn
        import z3
        i = z3.Int(C.CTX.fresh_name("ex"))

        def run():
            C.CTX.no_fork += 1
            C.CTX.path.__dict__.setdefault("bounded", None)
            try:
                C.mark_nonneg(i)
                body = C.zb(C.rawb(c.fn(C.lift_int(i))))
            finally:
                C.CTX.no_fork -= 1
            lo, hi = C.norm_z(C.raw(c.lo)), C.norm_z(C.raw(c.hi))
            C.add_lemma([i], z3.Implies(z3.And(i >= lo, i < hi), z3.Not(body)), "no witness")
            C.prove(False, name)
        C.explore_inner(run, lambda p, r: None)

    def same_array(self, a, b, name, dtype=True):
        C = self.C
        if a is None or b is None:
            self.prove(a is None and b is None, name + ":presence")
            return
        if len(a._shape) != len(b._shape):
            self.prove(False, name + ":ndim")
            return
        for k, (x, y) in enumerate(zip(a._shape, b._shape)):
            self.prove(C.SymB(C.ieq(x, y)), f"{name}:shape{k}")
        if dtype:
            self.prove(a._dtype == b._dtype, name + ":dtype")
        sa, sb = a.snapshot(), b.snapshot()

        def claim(*idx):
            ix = tuple(C.raw(i) for i in idx)
            return sa(ix) == sb(ix)
        self.forall(a._shape, claim, name + ":elements")

    def same_bytes(self, x, y, name):
        """two byte strings have equal contents"""
        from . import fakeio
        C = self.C
        x, y = bytes(x), bytes(y)
        self.prove(C.SymB(C.ieq(fakeio.vlen_raw(x), fakeio.vlen_raw(y))), name + ":length")
        sx, sy = fakeio.segments(x), fakeio.segments(y)
        sx = [s for s in sx if not (s[1] == 0)]
        sy = [s for s in sy if not (s[1] == 0)]
        if len(sx) != len(sy):
            # empty sections may be present on one side only
            sx = [s for s in sx if not (C.is_z(s[1]) and C.entails(s[1] == 0))]
            sy = [s for s in sy if not (C.is_z(s[1]) and C.entails(s[1] == 0))]
        if len(sx) != len(sy):
            self.prove(False, name + ":sections")
            return
        for k, ((a, la), (b, lb)) in enumerate(zip(sx, sy)):
            if isinstance(a, bytes) != isinstance(b, bytes):
                self.prove(False, f"{name}:section{k}")
            elif isinstance(a, bytes):
                self.prove(fakeio.str_eq(a.decode("latin1"), b.decode("latin1")), f"{name}:text{k}")
            else:
                self.prove(C.SymB(C.ieq(la, lb)), f"{name}:seclen{k}")
                if a.dtype is None or b.dtype is None or a.dtype.name != b.dtype.name:
                    self.prove(False, f"{name}:secdtype{k}")
                    continue
                n = C.ifloordiv(la, a.dtype.itemsize)
                self.forall((C.lift_int(n),), lambda i: a.read(C.imul(C.raw(i), a.dtype.itemsize), a.dtype) ==
                            b.read(C.imul(C.raw(i), b.dtype.itemsize), b.dtype), f"{name}:bytes{k}")

    def attempt(self, fn, *a, **k):
        """(result, exception)"""
        import z3
        from . import core
        try:
            return fn(*a, **k), None
        except z3.Z3Exception as e:
            raise core.Unsupported(f"engine gap: {e}\n" + traceback.format_exc()[-1500:])
        except (TypeError, AttributeError, NameError) as e:
            # an operation the engine does not model, or a genuine error of the code?
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            if ENGINE_NAMES.search(str(e)) or (os.path.dirname(tb.tb_frame.f_code.co_filename) == HERE and not MODELLED.search(str(e))):
                raise core.Unsupported(f"engine gap: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
            return None, e
        except Exception as e:
            return None, e

    def fail(self, name):
        self.prove(False, name)


# ====================================================================== concrete
class Failure(Exception):
    pass


class ConcEnv:
    sym = False

    def __init__(self, seed, overrides=None, max_idx=3000, dims=None):
        import numpy
        self.rng = random.Random(seed)
        self.nprng = numpy.random.default_rng(seed)
        self._np = numpy
        self.over = overrides or {}
        self.failures = []
        self.checked = 0
        self.scenario = ""
        self.max_idx = max_idx
        self.dirname = tempfile.mkdtemp(prefix="vc_")
        self.inputs = {}
        self.dimset = dims or [0, 1, 2, 3, 5, 7, 31, 100, 255, 256, 257, 300, 511, 513, 600]

    def close(self):
        shutil.rmtree(self.dirname, ignore_errors=True)

    def mod(self, name="gsply"):
        import importlib
        return importlib.import_module(name)

    def pure(self, module, fname):
        pass

    @property
    def np(self):
        return self._np

    @property
    def torch(self):
        import torch
        return torch

    def dim(self, name, lo=0, hi=None):
        if name in self.over:
            v = self.over[name]
            if v > 200000 or v < lo or (hi is not None and v > hi):
                raise ScenarioSkip(name)
        else:
            c = [d for d in self.dimset if d >= lo and (hi is None or d <= hi)]
            if hi is not None and hi - lo < 20:
                c = list(range(lo, hi + 1))
            v = self.rng.choice(c) if c else self.rng.randint(lo, hi if hi is not None else lo + 50)
        self.inputs[name] = v
        return v

    integer = dim

    def int_any(self, name):
        v = self.over.get(name)
        if v is None:
            v = self.rng.choice([0, 1, -1, 2, -2, 3, 5, -5, 10, -10, 255, 256, 257, -256, -300, 1000, -1000, self.rng.randint(-700, 700)])
        self.inputs[name] = v
        return int(v)

    def length(self, name, near):
        if name in self.over:
            return self.dim(name)
        near = max(0, int(near))
        v = self.rng.choice([near, near, near, max(0, near - 1), near + 1, near + self.rng.randint(0, 9), max(0, near - self.rng.randint(0, 300)),
                             near // 2, 0, self.rng.randint(0, near + 5)])
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        v = self.over.get(name)
        if v is None:
            a = -3.0 if lo is None else float(lo)
            b = a + 6.0 if hi is None else float(hi)
            v = self.rng.choice([a, b, self.rng.uniform(a, b), self.rng.uniform(a, b)])
        self.inputs[name] = float(v)
        return float(v)

    def boolean(self, name):
        v = self.over.get(name)
        if v is None:
            v = self.rng.random() < 0.5
        self.inputs[name] = bool(v)
        return bool(v)

    def pick(self, name, options):
        k = self.over.get("pick:" + name)
        if k is None or k >= len(options):
            k = self.rng.randrange(len(options))
        self.inputs["pick:" + name] = k
        return options[k]

    def array(self, name, shape, dtype="float32", layout="c", lo=None, hi=None, torch=False, writeable=True, cols=None):
        np = self._np
        shape = tuple(int(s) for s in shape)
        base_shape = shape
        if layout == "strided":
            base_shape = (2 * shape[0] + 1,) + shape[1:]
        elif layout == "cols":
            base_shape = shape[:-1] + (shape[-1] + 3,) if len(shape) > 1 else (3 * shape[0] + 1,)
        elif layout == "f":
            base_shape = shape[::-1]
        a = self._random(base_shape, dtype, lo, hi)
        for (c0, w, l, h) in cols or ():
            a[:, c0:c0 + w] = self._random((base_shape[0], w), dtype, Fraction(l), Fraction(h))
        ent = self.over.get("array:" + name)
        if ent:
            for idx, v in ent:
                if len(idx) == a.ndim and all(0 <= i < s for i, s in zip(idx, a.shape)):
                    try:
                        if cols:
                            for (c0, w, l, h) in cols:
                                if c0 <= idx[1] < c0 + w:
                                    v = min(max(v, float(Fraction(l))), float(Fraction(h)))
                        a[tuple(idx)] = v
                    except (OverflowError, ValueError):
                        pass
        if layout == "strided":
            a = a[1::2]
        elif layout == "cols":
            a = a[..., 1:1 + shape[-1]] if len(shape) > 1 else a[:3 * shape[0]].reshape(shape[0], 3)[:, 1]
        elif layout == "f":
            a = a.T
        self.inputs[name] = a.copy()
        if torch:
            import torch as T
            if layout == "c":
                return T.from_numpy(a)
            return T.from_numpy(a)
        if not writeable:
            a.flags.writeable = False
        return a

    def _random(self, shape, dtype, lo, hi):
        np, r = self._np, self.nprng
        dt = np.dtype(dtype)
        if dt == np.bool_:
            return r.random(shape) < self.rng.choice([0.5, 0.5, 0.9, 0.1, 1.0, 0.0])
        if dt.kind in "iu":
            info = np.iinfo(dt)
            a = info.min if lo is None else int(lo)
            b = info.max if hi is None else int(hi)
            x = r.integers(a, b, size=shape, endpoint=True, dtype=np.int64 if dt.itemsize < 8 else np.int64)
            if self.rng.random() < 0.3 and x.size:
                ed = r.choice(np.array([a, b]), size=shape)
                x = np.where(r.random(shape) < 0.3, ed, x)
            return x.astype(dt)
        a = None if lo is None else float(lo)
        b = None if hi is None else float(hi)
        mode = self.rng.randrange(5)
        if a is not None and b is not None:
            x = r.uniform(a, b, size=shape)
            if mode == 0:
                x = np.where(r.random(shape) < 0.3, np.where(r.random(shape) < 0.5, a, b), x)
            elif mode == 1 and x.size:
                x = np.full(shape, r.uniform(a, b))
            elif mode == 2:
                m = (a + b) / 2
                x = m + (x - m) * 1e-3
        else:
            s = self.rng.choice([1.0, 1.0, 3.0, 10.0, 0.01])
            x = r.normal(0, s, size=shape)
            if mode == 0 and x.size:
                x = np.where(r.random(shape) < 0.2, np.round(x), x)
            elif mode == 1 and x.size:
                x = np.where(r.random(shape) < 0.05, x * 100, x)
            if a is not None:
                x = np.maximum(x, a)
                x = np.where(x <= a, a + np.abs(r.normal(0, s, size=shape)), x)
            if b is not None:
                x = np.minimum(x, b)
        x = x.astype(dt)
        if a is not None:
            x = np.maximum(x, np.asarray(a, dt))
        if b is not None:
            x = np.minimum(x, np.asarray(b, dt))
        return x

    def path(self, name):
        return os.path.join(self.dirname, name)

    def put_file(self, name, *parts):
        p = os.path.join(self.dirname, name)
        with open(p, "wb") as f:
            f.write(self.join(*parts))
        return p

    def image(self, name, H, W, ch):
        import imagecodecs
        b = imagecodecs.webp_encode(self._np.ascontiguousarray(self.array(name, (H, W, ch), "uint8")), lossless=True)
        return b, imagecodecs.webp_decode(b)

    def bundle(self, meta, files, kind):
        import io
        import json
        import zipfile

        def plain(x):
            if isinstance(x, dict):
                return {k: plain(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [plain(v) for v in x]
            if isinstance(x, self._np.ndarray):
                return x.tolist()
            if isinstance(x, self._np.generic):
                return x.item()
            return float(x) if isinstance(x, Fraction) else x
        files = dict(files)
        if meta is not None:
            files["meta.json"] = meta if isinstance(meta, bytes) else json.dumps(plain(meta)).encode()
        if kind == "folder":
            d = os.path.join(self.dirname, "scene")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n, b in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            return d
        o = io.BytesIO()
        with zipfile.ZipFile(o, "w") as z:
            for n, b in files.items():
                z.writestr(n, b)
        return o.getvalue() if kind == "bytes" else self.put_file("scene.sog", o.getvalue())

    def join(self, *parts):
        return b"".join(x if isinstance(x, bytes) else self._np.ascontiguousarray(x).tobytes() for x in parts)

    def text(self, fmt, *nums):
        return (fmt.replace("%d", "%s") % tuple(str(n) for n in nums)).encode("latin1")

    def file_bytes(self, path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def file_exists(self, path):
        return os.path.exists(path)

    def blob_at(self, data, off, dtype):
        np = self._np
        dt = np.dtype(dtype)
        v = np.frombuffer(data[int(off):int(off) + dt.itemsize], dt)[0]
        return v.item()

    def nbytes(self, data):
        return len(data)

    def header_of(self, data):
        k = data.find(b"end_header\n")
        if k < 0:
            return None, 0
        return data[:k + 11], k + 11

    def text_eq(self, data, fmt, *nums):
        return data == (fmt.replace("%d", "%s") % tuple(str(n) for n in nums)).encode("latin1")

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise ScenarioSkip("precondition")

    def truth(self, c):
        return bool(c)

    def exp(self, x):
        return math.exp(min(float(x), 700.0))

    def log(self, x):
        return math.log(x) if x > 0 else float("nan")

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def rint(self, x):
        return round(x)

    def trunc(self, x):
        return int(x)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def abs(self, x):
        return abs(x)

    def clip(self, x, lo, hi):
        return min(max(x, lo), hi)

    def q(self, s):
        return float(Fraction(s))

    def eq(self, a, b):
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def ge(self, a, b):
        return a >= b

    def gt(self, a, b):
        return a > b

    def feq(self, a, b, rel=2e-5, abs=1e-6):
        a, b = float(a), float(b)
        if a == b:
            return True
        d = a - b if a > b else b - a
        m = max(a, -a, b, -b)
        return d <= (abs if abs is not None else 1e-6) + (rel if rel is not None else 2e-5) * m

    def near(self, a, b, tol):
        a, b, tol = float(a), float(b), float(tol)
        m = max(abs(a), abs(b), 1.0)
        return abs(a - b) <= tol + 3e-6 * m

    def u32(self, x):
        return int(x) & 0xFFFFFFFF

    def bits(self, x, lo, width):
        return (self.u32(x) >> lo) & ((1 << width) - 1)

    def len(self, x):
        return len(x)

    def shape(self, a):
        return tuple(a.shape)

    def dtype(self, a):
        return str(a.dtype).replace("torch.", "")

    def get(self, a, *idx):
        v = a[tuple(int(i) for i in idx)]
        return v.item() if hasattr(v, "item") else v

    def freeze(self, a):
        if a is None:
            return None
        if hasattr(a, "detach"):
            return a.detach().clone()
        return a.copy()

    def same_buffer(self, a, b):
        return self._np.shares_memory(*[x.detach().numpy() if hasattr(x, "detach") else x for x in (a, b)])

    def is_tensor(self, a):
        return hasattr(a, "detach")

    def prove(self, c, name):
        self.checked += 1
        if not c:
            self.failures.append((self.scenario + "/" + name, None))
        return bool(c)

    def forall(self, shape, fn, name):
        dims = [int(s) for s in shape]
        total = 1
        for d in dims:
            total *= d
        if total <= self.max_idx:
            it = product(*[range(d) for d in dims])
        else:
            s = set()
            for _ in range(self.max_idx):
                s.add(tuple(self.rng.choice([0, d - 1, self.rng.randrange(d), self.rng.randrange(d), self.rng.randrange(d)]) for d in dims))
            it = sorted(s)
        bad = 0
        for idx in it:
            r = fn(*idx)
            if isinstance(r, dict):
                for n, c in r.items():
                    self.checked += 1
                    if not c:
                        self.failures.append((f"{self.scenario}/{name}:{n}", idx))
                        bad += 1
            else:
                self.checked += 1
                if not r:
                    self.failures.append((f"{self.scenario}/{name}", idx))
                    bad += 1
            if bad > 3:
                break

    def derive(self, name, terms, hyps, goal):
        self.prove(goal(terms), name)

    def known(self, *claims):
        pass

    def opaque(self):
        pass

    def consider(self, *terms):
        pass

    def exists(self, lo, hi, fn):
        return any(bool(fn(i)) for i in range(int(lo), int(hi)))

    def same_array(self, a, b, name, dtype=True):
        np = self._np
        if a is None or b is None:
            self.prove(a is None and b is None, name + ":presence")
            return
        x = a.detach().numpy() if hasattr(a, "detach") else np.asarray(a)
        y = b.detach().numpy() if hasattr(b, "detach") else np.asarray(b)
        if x.shape != y.shape:
            self.prove(False, f"{name}:shape")
            self.failures[-1] = (self.failures[-1][0], (x.shape, y.shape))
            return
        if dtype:
            self.prove(x.dtype == y.dtype, name + ":dtype")
        self.checked += max(x.size, 1)
        d = x != y
        if d.any():
            ix = tuple(int(i) for i in np.argwhere(d)[0]) if d.ndim else ()
            self.failures.append((f"{self.scenario}/{name}:elements", (ix, x[ix].item(), y[ix].item())))

    def same_bytes(self, x, y, name):
        self.prove(bytes(x) == bytes(y), name)

    def attempt(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def fail(self, name):
        self.prove(False, name)
