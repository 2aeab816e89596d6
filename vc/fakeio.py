"""Files, bytes and paths over symbolic contents.

A bytes value is a real Python `bytes` object in which binary sections of symbolic length are
represented by tokens (\\x03id\\x04); decimal numbers with a symbolic value are \\x01id\\x02.
Offsets are counted in a virtual address space where literal characters (and number tokens) have
their literal length and a binary section has its symbolic byte length.
"""
import errno
import posixpath
import re
from pathlib import PurePosixPath

import z3

from . import arrays as A
from .core import (BLOB_TAB, CTX, NonTermination, STR_TAB, SV, SymB, Unsupported, band, choose, entails, iadd, ieq, ifloordiv, ile, ilt, imod, imul,
                   is_z, isub, lift_int, mark_nonneg, mk, mk_i, norm_z, raw, token_value)

TOK = re.compile(rb"\x03(\d+)\x04")
NUM = re.compile(r"\x01\d+\x02")


class Blob:
    """count elements of dtype; byte length nbytes"""

    def __init__(self, dtype, count, fn, nbytes=None):
        self.dtype, self.count, self.fn = dtype, count, fn
        self.nbytes = imul(count, dtype.itemsize) if nbytes is None else nbytes

    def read(self, off, dtype):
        """element of dtype at byte offset off (raw)"""
        s = dtype.itemsize
        if dtype.name == self.dtype.name:
            r = imod(off, s)
            if r == 0 or (not isinstance(r, int) and entails(ieq(r, 0))):
                i = ifloordiv(off, s) if s > 1 else off
                if is_z(i):
                    mark_nonneg(i)
                return self.fn(i)
        return junk(self, dtype, off)


class Window:
    """bytes [start, start+nbytes) of a bytes value"""
    dtype = None

    def __init__(self, data, start, nbytes):
        self.data, self.start, self.nbytes = data, start, nbytes

    def read(self, off, dtype):
        return read_at(self.data, iadd(self.start, off), dtype)


def junk(key, dtype, off):
    """the bytes at this place do not hold an element of that type: any value"""
    t = key.__dict__.setdefault("junk", {})
    if dtype.name not in t:
        t[dtype.name] = A.uf_array(CTX.fresh_name("junk"), (1,), dtype)
    return t[dtype.name].buf.fn((off,))


def token(b):
    k = len(BLOB_TAB) + 1
    BLOB_TAB[k] = b
    return b"\x03%d\x04" % k


def segments(data):
    """[(bytes | blob, byte length)]"""
    out = []
    pos = 0
    for m in TOK.finditer(data):
        if m.start() > pos:
            out.append((data[pos:m.start()], m.start() - pos))
        b = BLOB_TAB[int(m.group(1))]
        out.append((b, b.nbytes))
        pos = m.end()
    if pos < len(data):
        out.append((data[pos:], len(data) - pos))
    return out


def has_blob(data):
    return TOK.search(data) is not None


def has_strtok(s):
    if isinstance(s, bytes):
        s = s.decode("latin1")
    return isinstance(s, str) and NUM.search(s) is not None


def vlen_raw(data):
    n = 0
    for _, ln in segments(data):
        n = iadd(n, ln)
    if is_z(n):
        mark_nonneg(n)
    return n


def vlen(data):
    return lift_int(vlen_raw(bytes(data)))


def read_at(data, off, dtype):
    segs = segments(data)
    opts = []
    p = 0
    s = dtype.itemsize
    for seg, ln in segs:
        e = iadd(p, ln)
        inside = band(ile(p, off), ile(iadd(off, s), e))
        if inside is not False:
            if not isinstance(inside, bool):
                if entails(inside):
                    inside = True
                elif entails(z3.Not(inside)):
                    inside = False
            if inside is not False:
                opts.append((inside, seg, p))
            if inside is True:
                break
        p = e
    out = []
    for c, seg, p in opts:
        if isinstance(seg, bytes):
            o = isub(off, p)
            if isinstance(o, int) and not has_strtok(seg):
                import struct
                from fractions import Fraction
                code = {"float32": "<f", "float64": "<d", "uint8": "<B", "uint16": "<H", "uint32": "<I", "int32": "<i", "int64": "<q"}[dtype.name]
                v = struct.unpack(code, seg[o:o + s])[0]
                out.append((c, Fraction(v) if isinstance(v, float) else v))
            else:
                out.append((c, junk(LITJUNK, dtype, off)))
        else:
            out.append((c, seg.read(isub(off, p), dtype)))
    if not out or out[-1][0] is not True:
        out.append((True, junk(LITJUNK, dtype, off)))
    return choose(out)


class _L:
    pass


LITJUNK = _L()


def cut(data, start, ln):
    """bytes [start, start+ln) of data, 0 <= start, start+ln <= vlen"""
    if isinstance(ln, int) and ln == 0:
        return b""
    segs = segments(data)
    end = iadd(start, ln)

    def eq(a, b):
        c = ieq(a, b)
        return c is True or (c is not False and entails(c))

    def le(a, b):
        c = ile(a, b)
        return c is True or (c is not False and entails(c))
    p = 0
    k0 = None
    bounds = []
    for seg, l in segs:
        bounds.append((seg, p, iadd(p, l)))
        p = iadd(p, l)
    for n, (seg, a, b) in enumerate(bounds):
        if le(a, start) and (le(iadd(start, 1), b) or eq(start, b) and n == len(bounds) - 1):
            k0 = n
            break
        if eq(start, a):
            k0 = n
            break
    k1 = None
    for n, (seg, a, b) in enumerate(bounds):
        if le(end, b) and le(a, end):
            k1 = n
            break
    if k0 is None or k1 is None or k1 < k0:
        return token(Window(data, start, ln))
    out = b""
    for n in range(k0, k1 + 1):
        seg, a, b = bounds[n]
        s = start if n == k0 else a
        e = end if n == k1 else b
        if isinstance(seg, bytes):
            if not isinstance(isub(s, a), int) and eq(s, a):
                s = a
            if not isinstance(isub(e, a), int) and eq(e, b):
                e = b
            o1, o2 = isub(s, a), isub(e, a)
            if not isinstance(o1, int) or not isinstance(o2, int):
                return token(Window(data, start, ln))
            out += seg[o1:o2]
        elif eq(s, a) and eq(e, b):
            out += token(seg)
        else:
            out += token(SubBlob(seg, isub(s, a), isub(e, s)))
    return out


class SubBlob:
    def __init__(self, b, start, nbytes):
        if isinstance(b, SubBlob):
            b, start = b.b, iadd(b.start, start)
        self.b, self.start, self.nbytes = b, start, nbytes
        self.dtype = b.dtype

    def read(self, off, dtype):
        return self.b.read(iadd(self.start, off), dtype)


def bytes_slice(data, s):
    n = vlen_raw(data)
    st, step, ln = A.slice_bounds(s, n)
    if step != 1:
        raise Unsupported("strided slice of bytes")
    return cut(data, st, ln)


def str_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, str):
        ta, tb = token_value(a), token_value(b)
        if ta is not None or tb is not None:
            def val(t, s):
                if t is not None:
                    return t
                return int(s) if s.strip().lstrip("-").isdigit() else None
            x, y = val(ta, a), val(tb, b)
            if x is None or y is None:
                return False
            return x == y
    if a == b:
        return True
    if isinstance(a, bytes):
        return bytes_eq(a, b)
    if has_strtok(a) or has_strtok(b):
        # same text apart from number tokens: compare token by token
        pa, pb = re.split("(\x01\\d+\x02)", a), re.split("(\x01\\d+\x02)", b)
        if len(pa) != len(pb):
            # a number token stands for the decimal digits of an integer
            if not (has_strtok(a) and has_strtok(b)):
                parts, lit = (pa, b) if has_strtok(a) else (pb, a)
                toks = [x for x in parts if token_value(x) is not None]
                m = re.fullmatch("".join("(-?\\d+)" if token_value(x) is not None else re.escape(x) for x in parts), lit, re.S)
                if m is None:
                    return False
                if len(toks) == 1:
                    g = m.group(1)
                    return (token_value(toks[0]) == int(g)) if str(int(g)) == g else False
            elif not common_prefix(pa[0], pb[0]) or not common_prefix(pa[-1][::-1], pb[-1][::-1]):
                return False
            raise Unsupported("comparison of texts with symbolic numbers")
        cs = []
        for x, y in zip(pa, pb):
            if x == y:
                continue
            tx, ty = token_value(x), token_value(y)
            if tx is None or ty is None:
                return False
            cs.append((tx == ty))
        return SymB(band(*[c if isinstance(c, bool) else c.t for c in cs]))
    return False


def common_prefix(x, y):
    """literal texts before the first number: can the two texts still be equal?"""
    if x.startswith(y):
        x, y = y, x
    if not y.startswith(x):
        return False
    return len(x) == len(y) or y[len(x)] in "-0123456789"


def bytes_eq(a, b):
    if not has_blob(a) and not has_blob(b):
        if has_strtok(a) or has_strtok(b):
            return str_eq(a.decode("latin1"), b.decode("latin1"))
        return a == b
    raise Unsupported("comparison of binary data")


def array_bytes(a):
    src = a.snapshot()
    shape = a._shape
    dt = a._dtype

    def fn(i):
        return src(A.unflatten(i, shape))
    return token(Blob(dt, A.prod(shape), fn))


def bytes_array(data, dtype, start, count):
    """Arr of count elements of dtype starting at byte offset start"""
    s = dtype.itemsize

    def fn(idx):
        return read_at(data, iadd(start, imul(idx[0], s)), dtype)
    return A.Arr.from_fn((count,), dtype, fn, "bytes")


def frombuffer(data, dtype, count=-1, offset=0):
    if not isinstance(data, (bytes, bytearray)):
        raise Unsupported("frombuffer of a non-bytes object")
    data = bytes(data)
    n = vlen_raw(data)
    offset = raw(offset)
    count = raw(count)
    avail = isub(n, offset)
    s = dtype.itemsize
    if isinstance(count, int) and count == -1:
        m = imod(avail, s)
        if (m != 0) if isinstance(m, int) else not bool(SymB(ieq(m, 0))):
            raise ValueError("buffer size must be a multiple of element size")
        cnt = ifloordiv(avail, s)
    else:
        if not bool(SymB(ile(imul(count, s), avail))):
            raise ValueError("buffer is smaller than requested size")
        cnt = count
    r = bytes_array(data, dtype, offset, cnt)
    r.buf.writeable = False
    return r


# ---------------------------------------------------------------- file system
class FakeFS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/w"}
        self.opened_w = []
        self.objs = {}

    def get(self, p):
        return self.files.get(norm(p))


def norm(p):
    return posixpath.normpath(str(p))


def name_ok(p):
    if any(len(x) > 255 for x in str(p).split("/")):
        raise OSError(errno.ENAMETOOLONG, "File name too long", str(p))


class FakePath(PurePosixPath):
    _vc_path = True

    def exists(self):
        name_ok(self)
        return norm(self) in CTX.fs.files or norm(self) in CTX.fs.dirs

    def is_file(self):
        return norm(self) in CTX.fs.files

    def is_dir(self):
        return norm(self) in CTX.fs.dirs

    def open(self, mode="r", *a, **k):
        return fake_open(self, mode)

    def read_bytes(self):
        return fake_open(self, "rb").read()

    def write_bytes(self, b):
        fake_open(self, "wb").write(b)

    def resolve(self, strict=False):
        return self

    def absolute(self):
        return self

    def expanduser(self):
        return self

    def mkdir(self, *a, **k):
        CTX.fs.dirs.add(norm(self))

    def stat(self):
        f = CTX.fs.get(self)
        if f is None:
            raise FileNotFoundError(str(self))

        class S:
            st_size = vlen(f)
        return S()

    def unlink(self, missing_ok=False):
        if norm(self) in CTX.fs.files:
            del CTX.fs.files[norm(self)]
        elif not missing_ok:
            raise FileNotFoundError(str(self))


def rest_of(data, pos):
    """the segments after the first one (pos lies in the first)"""
    out = b""
    for seg, _ in segments(data)[1:]:
        out += seg if isinstance(seg, bytes) else token(seg)
    return out


class FakeFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.pos = 0
        self.closed = False
        self.at_eof = 0

    def _eof(self):
        self.at_eof += 1
        if self.at_eof > 3000:
            raise NonTermination(f"{self.at_eof} reads at the end of {self.name}")
        return b""

    @property
    def data(self):
        return CTX.fs.files[self.name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def _r(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if "r" not in self.mode and "+" not in self.mode:
            import io
            raise io.UnsupportedOperation("not readable")

    def remaining(self):
        return isub(vlen_raw(self.data), self.pos)

    def read(self, n=-1):
        self._r()
        rem = self.remaining()
        if n is None or (isinstance(n, int) and n < 0):
            ln = rem
        elif isinstance(n, int) and is_z(rem) and isinstance(self.pos, int):
            # a block read: either the file ends first, or exactly n bytes come back
            if bool(SymB(ile(rem, n))):
                ln = rem
                seg = self.literal()
                if seg is not None:
                    r = seg + rest_of(self.data, self.pos)
                    self.pos = iadd(self.pos, rem)
                    return r if r else self._eof()
            else:
                ln = n
                seg = self.literal()
                if seg is not None:
                    r = seg[:n] if len(seg) >= n else seg + token(Window(self.data, self.pos + len(seg), n - len(seg)))
                    self.pos += n
                    return r
        else:
            ln = clamp_min(raw(n), rem)
        r = cut(self.data, self.pos, ln)
        self.pos = iadd(self.pos, ln)
        return r if r else self._eof()

    def literal(self):
        """the literal bytes from the position to the end of the literal segment it is in, if it is in one"""
        seg, ln = segments(self.data)[0] if self.data else (b"", 0)
        return seg[self.pos:] if isinstance(seg, bytes) and isinstance(ln, int) and self.pos < ln else None

    def readline(self, limit=-1):
        self._r()
        data = self.data
        p = 0
        for seg, ln in segments(data):
            e = iadd(p, ln)
            c = ilt(self.pos, e)
            if c is not True and (c is False or not bool(SymB(c))):
                p = e
                continue
            if not isinstance(seg, bytes):
                raise Unsupported("readline inside binary data")
            o = isub(self.pos, p)
            if not isinstance(o, int):
                raise Unsupported("readline at a symbolic offset")
            k = seg.find(b"\n", o)
            if k < 0:
                if e is not None and vlen_raw(data) is not e and ieq(vlen_raw(data), e) is not True:
                    raise Unsupported("readline runs into binary data")
                self.pos = e
                return seg[o:]
            self.pos = iadd(p, k + 1)
            return seg[o:k + 1]
        return self._eof()

    def __iter__(self):
        while True:
            ln = self.readline()
            if ln == b"":
                return
            yield ln

    def readlines(self):
        return list(self)

    def seek(self, off, whence=0):
        off = raw(off)
        if whence == 1:
            off = iadd(self.pos, off)
        elif whence == 2:
            off = iadd(vlen_raw(self.data), off)
        self.pos = off
        return lift_int(off)

    def tell(self):
        return lift_int(self.pos)

    def fileno(self):
        raise Unsupported("fileno")

    def write(self, b):
        if "w" not in self.mode and "a" not in self.mode and "+" not in self.mode:
            import io
            raise io.UnsupportedOperation("not writable")
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if hasattr(b, "_vc_len") and isinstance(b, A.Arr):
            b = array_bytes(b)
        if isinstance(b, memoryview):
            b = bytes(b)
        if not isinstance(b, (bytes, bytearray)):
            raise TypeError("a bytes-like object is required")
        b = bytes(b)
        n = vlen_raw(b)
        end = vlen_raw(self.data)
        if ieq(self.pos, end) is not True and not entails(ieq(self.pos, end)):
            raise Unsupported("write not at the end of the file")
        CTX.fs.files[self.name] = self.data + b
        self.pos = iadd(self.pos, n)
        return lift_int(n)

    def truncate(self, n=None):
        raise Unsupported("truncate")


def clamp_min(n, rem):
    if isinstance(n, int) and isinstance(rem, int):
        return max(0, min(n, rem))
    c = ile(n, rem)
    if c is True:
        return n
    if c is False:
        return rem
    if entails(c):
        return n
    if entails(z3.Not(c)):
        return rem
    t = z3.If(c, norm_z(n), norm_z(rem))
    return mark_nonneg(t)


def fake_open(path, mode="r", buffering=-1, *a, **k):
    if isinstance(path, int):
        raise Unsupported("open by descriptor")
    name = norm(path)
    if "b" not in mode:
        raise Unsupported("text mode files")
    fs = CTX.fs
    name_ok(name)
    if "\0" in name:
        raise ValueError("embedded null byte")
    if "w" in mode:
        fs.files[name] = b""
        fs.opened_w.append(name)
        return FakeFile(name, mode)
    if "a" in mode or "x" in mode:
        raise Unsupported("file mode")
    if name in fs.dirs:
        raise IsADirectoryError(name)
    if name not in fs.files:
        raise FileNotFoundError(name)
    return FakeFile(name, mode)


class FakeBytesIO(FakeFile):
    n = 0

    def __init__(self, b=b""):
        FakeBytesIO.n += 1
        name = f"/mem/{FakeBytesIO.n}"
        CTX.fs.files[name] = bytes(b)
        super().__init__(name, "r+b")

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data


def fromfile(f, dtype, count=-1, sep="", offset=0):
    if sep:
        raise Unsupported("text fromfile")
    if isinstance(f, (str, PurePosixPath)):
        f = fake_open(f, "rb")
    f._r()
    s = dtype.itemsize
    pos = iadd(f.pos, raw(offset))
    rem = isub(vlen_raw(f.data), pos)
    count = raw(count)
    avail = ifloordiv(rem, s)
    if is_z(avail):
        mark_nonneg(avail)
    if (count < 0) if isinstance(count, int) else bool(SymB(ilt(count, 0))):
        cnt = avail
    else:
        if not (isinstance(count, int) and count == 0):
            # a short file gives fewer elements, silently
            ge = ile(imul(count, s), rem)
            if ge is True or (ge is not False and bool(SymB(ge))):
                cnt = count
            else:
                cnt = raw(choose([(ilt(rem, 0), 0), (True, lift_int(avail))]))
        else:
            cnt = 0
    r = bytes_array(f.data, dtype, pos, cnt)
    f.pos = iadd(pos, imul(cnt, s))
    return r
