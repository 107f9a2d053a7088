"""Loads the modules of the repository under test, from their current source,
with numpy/math/float/int/open replaced by their symbolic counterparts."""
import ast
import builtins
import io
import os
import sys
import types

from . import npx

REPO = os.environ.get("DG1D_REPO", "/repo")
FUNCS = set()
_mods = {}
_vfs = None


def quiet(*a, file=None, sep=" ", end="\n", **k):
    if file is not None and isinstance(file, io.StringIO):
        file.write((" " if sep is None else sep).join(str(v) for v in a) + ("\n" if end is None else end))


class _Proxy(types.ModuleType):
    """A module some of whose functions look at the in-memory files first."""

    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self._real, n)


def _key(p):
    return os.path.normpath(str(p))


def _mem(p):
    v = LOADER.vfs
    return v is not None and isinstance(p, (str, os.PathLike)) and _key(p) in v.files


def _dirs():
    v = LOADER.vfs
    return {d for f in (v.files if v else ()) for d in [os.path.dirname(f)] if d}


def _rename(a, b, *r, **k):
    if LOADER.vfs is None:
        return os.replace(a, b)
    if not _mem(a):
        raise FileNotFoundError(str(a))
    LOADER.vfs.files[_key(b)] = LOADER.vfs.files.pop(_key(a))


def _remove(a, *r, **k):
    if LOADER.vfs is None:
        return os.remove(a)
    if not _mem(a):
        raise FileNotFoundError(str(a))
    del LOADER.vfs.files[_key(a)]


def _listdir(d="."):
    if LOADER.vfs is None:
        return os.listdir(d)
    d = _key(d)
    out = []
    for f in LOADER.vfs.files:
        rel = f if d == "." and not os.path.isabs(f) else os.path.relpath(f, d)
        first = rel.split(os.sep)[0]
        if first != ".." and first not in out:
            out.append(first)
    if not out and d not in _dirs():
        raise FileNotFoundError(d)
    return out


def _glob(pat, *a, **k):
    import fnmatch
    import glob
    if LOADER.vfs is None:
        return glob.glob(pat, *a, **k)
    return [f for f in LOADER.vfs.files if fnmatch.fnmatch(f, _key(pat))]


def _copy(a, b, **k):
    import shutil
    if LOADER.vfs is None:
        return shutil.copy(a, b)
    LOADER.vfs.files[_key(b)] = LOADER.vfs.files[_key(a)]


def _proxies():
    import glob
    import pathlib
    import shutil
    ospath = _Proxy(os.path, isfile=lambda p: _mem(p) or os.path.isfile(p), exists=lambda p: _mem(p) or os.path.exists(p),
                    isdir=lambda p: _key(p) in _dirs() or os.path.isdir(p),
                    getsize=lambda p: len(LOADER.vfs.files[_key(p)]) if _mem(p) else os.path.getsize(p))

    class Path(pathlib.PosixPath):
        def open(self, mode="r", *a, **k):
            return LOADER._open(self, mode, *a, **k)

        def read_text(self, *a, **k):
            with self.open() as f:
                return f.read()

        def write_text(self, text, *a, **k):
            with self.open("w") as f:
                return f.write(text)

        def exists(self, **k):
            return _mem(self) or super().exists(**k)

        def is_file(self):
            return _mem(self) or super().is_file()

        def unlink(self, missing_ok=False):
            if not (missing_ok and not self.exists()):
                _remove(self)

        def rename(self, b):
            _rename(self, b)

        replace = rename

        def glob(self, pat):
            if LOADER.vfs is None:
                return super().glob(pat)
            return iter([Path(f) for f in _glob(os.path.join(str(self), pat))])
    return {"os": _Proxy(os, path=ospath, rename=_rename, replace=_rename, remove=_remove, unlink=_remove, listdir=_listdir),
            "os.path": ospath, "pathlib": _Proxy(pathlib, Path=Path, PosixPath=Path), "glob": _Proxy(glob, glob=_glob, iglob=lambda *a, **k: iter(_glob(*a, **k))),
            "shutil": _Proxy(shutil, move=_rename, copy=_copy, copyfile=_copy)}


PROXIES = {}


class _ModFormat(ast.NodeTransformer):
    """`"text" % x` is compiled in C and would force x to a double."""

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == ord("r"):
            node = ast.copy_location(ast.FormattedValue(ast.Call(ast.Name("repr", ast.Load()), [node.value], []), -1, node.format_spec), node)
        return node

    def visit_Call(self, node):
        # numpy takes type objects in compiled code, where the stand-ins for int and float mean nothing
        self.generic_visit(node)

        def native(v):
            return ast.copy_location(ast.Call(ast.Name("__symx_dtype__", ast.Load()), [v], []), v)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "astype" and node.args:
            node.args[0] = native(node.args[0])
        for k in node.keywords:
            if k.arg == "dtype":
                k.value = native(k.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str))):
            return ast.copy_location(ast.Call(ast.Name("__symx_mod__", ast.Load()), [node.left, node.right], []), node)
        return node


def _rewrite(src, path):
    return ast.fix_missing_locations(_ModFormat().visit(ast.parse(src, path)))


class Loader:
    def __init__(self):
        self.mods = {}
        self.vfs = None
        self.codes = {}
        self.stubs = {}
        self.np_mod, self.math_mod = npx.NP, npx.MATH
        self.float_cls, self.int_cls = npx.FloatShim, npx.IntShim

    def fresh(self):
        self.mods = {}
        self.vfs = None
        self.stubs = {}

    # ------------------------------------------------------------ import hook
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "dg1d"
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top in self.stubs:
            return self.stubs[name] if fromlist else self.stubs[top]
        if top in ("os", "pathlib", "glob", "shutil"):
            PROXIES or PROXIES.update(_proxies())
            if top == name or fromlist:
                if name in PROXIES:
                    return PROXIES[name]
            elif name == "os.path":
                return PROXIES["os"]
        if name == "numpy":
            return self.np_mod
        if name == "math":
            return self.math_mod
        if name.startswith("numpy.") and self.np_mod is not npx.NP:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if name in ("numpy.polynomial", "numpy.polynomial.legendre"):
            if not fromlist:
                return npx.NP
            if name.endswith("legendre"):
                return npx.LEG
            import numpy.polynomial as P
            m = types.ModuleType("numpy.polynomial")
            m.__dict__.update({k: v for k, v in P.__dict__.items() if not k.startswith("__")})
            m.legendre = npx.LEG
            return m
        if name in ("numpy.linalg",):
            return npx.NP.linalg if fromlist else npx.NP
        if self.find(top):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.find(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def find(self, name):
        rel = name.replace(".", "/")
        for base in (REPO, os.path.join(REPO, "analysis")):
            for cand in (rel + ".py", rel + "/__init__.py"):
                p = os.path.join(base, cand)
                if os.path.isfile(p):
                    return p
        if name == "dg1d" and os.path.isdir(os.path.join(REPO, "dg1d")):
            return os.path.join(REPO, "dg1d", "__init__.py")
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.find(name)
        if path is None:
            raise ImportError("No module named %r" % name)
        parent = None
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        self.mods[name] = m
        src = open(path).read() if os.path.isfile(path) else ""
        self.exec_source(m, src, path)
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def exec_source(self, m, src, path):
        import warnings
        code = self.codes.get((path, src))
        if code is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code = self.codes[path, src] = compile(_rewrite(src, path), path, "exec")
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = self.float_cls
        b["int"] = self.int_cls
        b["__symx_mod__"] = npx.str_mod
        b["__symx_dtype__"] = lambda t: float if t is self.float_cls else int if t is self.int_cls else npx.native_dtype(t)
        b["repr"] = npx.c_repr
        b["print"] = quiet
        b["open"] = self._open
        m.__dict__["__builtins__"] = b
        exec(code, m.__dict__)

    def _open(self, fname, mode="r", *a, **k):
        if self.vfs is None:
            return open(fname, mode, *a, **k)
        return self.vfs.open(fname, mode)


class VFS:
    """In-memory files holding text with symbolic tokens."""

    def __init__(self):
        self.files = {}

    def open(self, fname, mode="r"):
        fname = os.path.normpath(str(fname))
        if "r" in mode and "+" not in mode:
            if fname not in self.files:
                raise FileNotFoundError(fname)
            return io.StringIO(self.files[fname])
        vfs = self

        class W(io.StringIO):
            def close(self):
                if not self.closed:
                    vfs.files[fname] = self.getvalue()
                io.StringIO.close(self)

            def __exit__(self, *a):
                self.close()
        w = W()
        if "a" in mode:
            w.write(self.files.get(fname, ""))
        self.files.setdefault(fname, "")
        return w


LOADER = Loader()
