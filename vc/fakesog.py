"""Models of zipfile, json and imagecodecs.

A container or encoded entry is an opaque byte token; CTX.fs.objs maps the token to what it stands for, so the code under
test sees arbitrary textures and metadata without anyone running a codec.  Anything without a meaning behaves as the
dependency does on garbage (it raises)."""
import copy
import json
import types
import zipfile

from .core import CTX


def token(kind, obj):
    fs = CTX.fs
    t = f"\x01{kind}:{len(fs.objs)}\x01"
    fs.objs[t] = (kind, obj)
    return t.encode("latin1")


def meaning(t, kind):
    if isinstance(t, (bytes, bytearray)):
        t = bytes(t).decode("latin1")
    k = CTX.fs.objs.get(t)
    return k if k is not None and k[0] == kind else None


class ZipFile:
    def __init__(self, f, mode="r", *a, **k):
        from . import fakeio
        if isinstance(f, fakeio.FakeFile):
            data = f.data
        else:
            data = fakeio.fake_open(f, "rb").data
        m = meaning(data, "zip")
        if m is None:
            raise zipfile.BadZipFile("File is not a zip file")
        self.entries = m[1]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def namelist(self):
        return list(self.entries)

    def read(self, name):
        if name not in self.entries:
            raise KeyError(name)
        return self.entries[name]


def zip_module():
    m = types.ModuleType("zipfile")
    m.ZipFile, m.BadZipFile = ZipFile, zipfile.BadZipFile
    m.is_zipfile = lambda f: True
    return m


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_copy(v) for v in x]
    return x


def json_module():
    m = types.ModuleType("json")

    def loads(s, *a, **k):
        if isinstance(s, (str, bytes, bytearray)):
            r = meaning(s if not isinstance(s, str) else s.encode("latin1", "replace"), "json")
            if r is not None:
                return _copy(r[1])
        return json.loads(s, *a, **k)
    m.loads = loads
    m.load = lambda f, *a, **k: loads(f.read())
    m.dumps = json.dumps
    m.JSONDecodeError = json.JSONDecodeError
    return m


def imagecodecs_module():
    m = types.ModuleType("imagecodecs")

    class WebpError(RuntimeError):
        pass

    def webp_decode(data, *a, **k):
        r = meaning(data, "image")
        if r is None:
            raise WebpError("not a WebP image")
        return r[1].copy()
    m.webp_decode = webp_decode
    m.WebpError = WebpError
    return m
