"""Loads the real source files of /repo/src/gsply for symbolic execution.

The text is parsed on every run.  The transformation keeps every statement; it changes only
  * decorators that hand the function to a compiler or cache (jit/njit/lru_cache): dropped, jit ones
    are marked so that their array accesses generate bounds obligations instead of exceptions;
  * decimal literals: read as exact rationals;
  * `for x in range(..)/prange(..)` statements: the body becomes a local function so that the loop
    can be checked for an arbitrary iteration;
  * subscript reads, comparisons and conditional expressions: routed through a helper that behaves identically on concrete
    values.
Builtins and third-party imports are bound to symbolic models (vbuiltins, fakenp, faketorch, fakeio).
"""
import ast
import builtins
import hashlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "gsply")

_code = {}
INFO = {}      # module -> {"sha": , "functions": [...], "kernels": [...]}
ENTERED = set()


def _assigned(stmts):
    """Names stored by statements (not entering nested function/class scopes)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.Nonlocal):
                    out.update(x.names)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in stmts:
        v.visit(s)
    return {x for x in out if not x.startswith("_vcx")}


def _loaded(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return {x for x in out if not x.startswith("_vcx")}


def _is_range(call):
    if not isinstance(call, ast.Call):
        return False
    f = call.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
    return n in ("range", "prange")


def _has_yield(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global)):
                return True
    return False


class BodyRewrite(ast.NodeTransformer):
    """break/continue/return of the loop being outlined."""

    def __init__(self):
        self.depth = 0

    def _loop(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_For = visit_While = _loop

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Attribute(ast.Name("_vcx", ast.Load()), "BREAK", ast.Load())), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        c = ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "RET", ast.Load()), [v], [])
        return ast.copy_location(ast.Return(c), n)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []       # enclosing function records
        self.qual = []
        self.n = 0
        self.functions = []
        self.kernels = []
        self.in_fstring = 0

    # -- literals
    def visit_Constant(self, n):
        if isinstance(n.value, float) and not self.in_fstring:
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "F", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_IfExp(self, n):
        n = self.generic_visit(n)
        if not self.stack or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        lam = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), x) for x in (n.body, n.orelse)]
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "ifexp", ast.Load()), [n.test] + lam, []), n)

    def visit_JoinedStr(self, n):
        return self.generic_visit(n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            n.value = ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "fmtv", ast.Load()), [n.value], []), n.value)
        return n

    def visit_AnnAssign(self, n):
        # annotations are not executed (from __future__ annotations semantics) except dataclass fields
        n.value = self.visit(n.value) if n.value is not None else None
        if self.stack:
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            return ast.copy_location(ast.Assign([self.visit(n.target)], n.value), n)
        n.annotation = ast.copy_location(ast.Constant(ast.unparse(n.annotation)), n)
        return n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "getitem", ast.Load()), [n.value, self._slice(n.slice)], []), n)
        return n

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.copy_location(ast.Call(ast.Name("_vcx_slice", ast.Load()), [s.lower or ast.Constant(None), s.upper or ast.Constant(None), s.step or ast.Constant(None)], []), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple([self._slice(e) for e in s.elts], ast.Load()), s)
        return s

    def visit_Attribute(self, n):
        n = self.generic_visit(n)
        if n.attr == "indices" and isinstance(n.ctx, ast.Load):
            # slice.indices on a slice with symbolic ends
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), "indices_of", ast.Load()), [n.value], []), n)
        return n

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            nm = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "isin", ast.NotIn: "notin"}[type(n.ops[0])]
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_vcx", ast.Load()), nm, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    # -- functions
    def visit_FunctionDef(self, n):
        q = ".".join(self.qual + [n.name])
        decs = []
        kernel = False
        for d in n.decorator_list:
            s = ast.unparse(d)
            head = s.split("(")[0]
            if head in ("jit", "njit", "numba.jit", "numba.njit", "nb.jit", "nb.njit", "numba.vectorize", "cuda.jit"):
                kernel = True
            elif head in ("lru_cache", "functools.lru_cache", "cache", "functools.cache"):
                pass
            else:
                decs.append(self.visit(d))
        n.decorator_list = decs
        rec = {"locals": set(), "nloops": 0}
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        if n.args.vararg:
            n.args.vararg.annotation = None
        if n.args.kwarg:
            n.args.kwarg.annotation = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        rec["gen"] = _has_yield([s for s in n.body])
        glob = set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob.update(x.names)
        rec["glob"] = glob
        rec["all"] = _assigned(n.body) | params
        self.stack.append(rec)
        self.qual.append(n.name)
        body = []
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        self.qual.pop()
        self.stack.pop()
        pre = []
        doc = body[0] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else None
        if doc is not None:
            body = body[1:]
        pre.append(ast.parse(f"_vcx.enter({self.mod + '.' + q!r})").body[0])
        names = sorted((rec["locals"] - params) - glob)
        if names:
            pre.append(ast.parse(" = ".join(names) + " = _vcx.UNBOUND").body[0])
        n.body = pre + body
        for p in pre:
            ast.copy_location(p, n)
            for x in ast.walk(p):
                ast.copy_location(x, n)
        self.functions.append(q)
        if kernel:
            self.kernels.append(q)
            d = ast.parse(f"_vcx.kernel({self.mod + '.' + q!r})", mode="eval").body
            for x in ast.walk(d):
                ast.copy_location(x, n)
            n.decorator_list = n.decorator_list + [d]
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        n = self.generic_visit(n)
        self.qual.pop()
        return n

    def visit_For(self, n):
        if not self.stack or not _is_range(n.iter) or not isinstance(n.target, ast.Name) or n.orelse or self.stack[-1]["gen"] or _has_yield(n.body):
            return self.generic_visit(n)
        rec = self.stack[-1]
        k = self.n
        self.n += 1
        names = sorted((_assigned(n.body) | {n.target.id}) - rec["glob"])
        loaded = sorted((_loaded(n.body) & rec["all"]) - set(names))
        rec["locals"].update(names)
        it = self.visit(n.iter)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        rw = BodyRewrite()
        nb = []
        for s in body:
            r = rw.visit(s)
            nb.extend(r if isinstance(r, list) else [r])
        src = f"""
def _vcxb_{k}(_vcx_i):
    nonlocal {', '.join(names)}
    {n.target.id} = _vcx_i
def _vcxs_{k}(_vcx_v):
    nonlocal {', '.join(names)}
    ({', '.join(names)},) = _vcx_v
_vcxr_{k} = _vcx.loop(0, _vcxb_{k}, {names!r}, lambda: ({', '.join(names)},), _vcxs_{k}, lambda: ({', '.join(loaded)}{',' if loaded else ''}), {self.mod + '.' + '.'.join(self.qual)!r}, {n.target.id!r})
if _vcxr_{k} is not None:
    return _vcxr_{k}.value
"""
        t = ast.parse(src).body
        t[0].body.extend(nb)
        call = t[2].value
        call.args[0] = it
        for s in t:
            for x in ast.walk(s):
                if not hasattr(x, "lineno") or x.lineno <= 12:
                    ast.copy_location(x, n)
        ast.fix_missing_locations(ast.Module(t, []))
        # a `return` inside an outlined outer body is rewritten by the enclosing BodyRewrite
        return t


def module_path(name):
    parts = name.split(".")
    base = os.path.join(os.path.dirname(SRC), *parts)
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py"), True
    return base + ".py", False


def compile_module(name):
    if name in _code:
        return _code[name]
    path, pkg = module_path(name)
    text = open(path, encoding="utf-8").read()
    tree = ast.parse(text)
    t = Transform(name)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, "exec", dont_inherit=True, flags=0)
    _code[name] = (code, path, pkg)
    INFO[name] = {"sha": hashlib.sha256(text.encode()).hexdigest()[:16], "functions": t.functions, "kernels": t.kernels,
                  "path": path}
    return _code[name]


class World:
    """A fresh instance of all gsply modules, bound to the models."""

    def __init__(self, fakes, opener, stubs=None):
        from . import vbuiltins, loops
        self.fakes = fakes            # top-level module name -> module object
        self.modules = {}
        self.stubs = stubs or {}      # "module.func" -> wrapper(orig) -> function
        self.builtins = vbuiltins.make_builtins(self._import, opener)
        self.rt = loops.Runtime(self)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "gsply")
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "gsply":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(module_path(name + "." + f)[0]):
                        self.load(name + "." + f)
                return m
            return self.load("gsply")
        if name in self.fakes or top in self.fakes:
            if fromlist:
                if name in self.fakes:
                    m = self.fakes[name]
                else:
                    m = self.fakes[top]
                    for p in name.split(".")[1:]:
                        m = getattr(m, p)
                if m is None:
                    raise ImportError(name)
                return m
            if self.fakes[top] is None:
                raise ImportError(name)
            return self.fakes[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        code, path, pkg = compile_module(name)
        m = types.ModuleType(name)
        self.modules[name] = m
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["_vcx"] = self.rt
        d["_vcx_slice"] = slice
        d["__annotations__"] = {}
        saved = sys.modules.get(name)
        sys.modules[name] = m          # dataclasses look the module up
        try:
            exec(code, d)
        finally:
            if saved is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = saved
        for q, w in self.stubs.items():
            mod, _, fn = q.rpartition(".")
            if mod == name and fn in d:
                d[fn] = w(d[fn])
        if "." in name:
            par, _, last = name.rpartition(".")
            setattr(self.load(par), last, m)
        return m
