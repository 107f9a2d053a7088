"""One harness body, two executions.

A property body receives `h`.  In symbolic mode its inputs are solver
variables, the modules come from loader.py and every assertion becomes a query;
in concrete mode (used for replaying counterexamples and validating witness
paths) the inputs are doubles and the modules are the ordinary ones.
"""
import importlib
import io
import math
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

TOL = 1e-9


class AssumeFailed(Exception):
    pass


class Instance:
    """body: "module:function"; params: JSON-able dict."""

    def __init__(self, body, params=None, name=None, **opts):
        self.body, self.params, self.opts = body, params or {}, opts
        self.name = name or "%s(%s)" % (body.split(":")[1], ", ".join("%s=%s" % kv for kv in self.params.items()))

    def as_dict(self):
        return {"body": self.body, "params": self.params, "name": self.name, "opts": self.opts}


def resolve(body):
    mod, fn = body.split(":")
    return getattr(importlib.import_module("props." + mod), fn)


class BaseH:
    F = Fraction

    def __deepcopy__(self, memo):
        return self

    def arr(self, name, shape, lo=-100, hi=100, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        return self.array_from(shape, lambda idx: self.real(name + "_" + "_".join(map(str, idx)), lo, hi, **k))

    def array_from(self, shape, fn):
        r = self.zeros(shape)
        for idx in np.ndindex(*shape):
            r[idx] = fn(idx)
        return r

    def eq_arr(self, label, a, b, tol=TOL):
        a, b = np.asarray(self.plain(a)), np.asarray(self.plain(b))
        if a.shape != b.shape:
            self.true("%s: shape %s vs %s" % (label, a.shape, b.shape), False)
            return
        for idx in np.ndindex(*a.shape):
            self.eq("%s%s" % (label, list(idx) if idx else ""), a[idx], b[idx], tol)


# ------------------------------------------------------------------ symbolic
class SymH(BaseH):
    symbolic = True

    def __init__(self, st):
        from . import core, npx, loader
        self.st, self.core, self.npx, self.loader = st, core, npx, loader.LOADER
        self.loader.fresh()
        self.pending = []
        self.closed = []
        self.names = {}
        self.values = []

    # modules and data
    def mod(self, name):
        return self.loader.load(name)

    def const(self, c):
        return self.core.Sym.const(Fraction(c))

    def zeros(self, shape):
        return self.npx.c_zeros(shape)

    def array(self, v):
        return self.npx.c_array(v)

    def plain(self, a):
        if isinstance(a, np.ndarray) and a.dtype != object:
            return a.view(np.ndarray)
        return self.npx.obj(a)

    def real(self, name, lo, hi, pos=False):
        assert name not in self.names, name
        g = self.st.new_gen(name, Fraction(lo), Fraction(hi), "input", pos=pos or lo > 0)
        self.names[name] = g
        return self.core.Sym({((g.idx, 1),): Fraction(1)}, None)

    def rounded(self, x):
        """x as a double whose later operations are rounded (standard model)."""
        return self.core.as_rounded(x)

    def exact(self, x):
        x = self.npx.pyval(x)
        return self.core.Sym(x.num, x.den) if isinstance(x, self.core.Sym) else x

    def integer(self, name, lo, hi):
        g = self.st.new_gen(name, lo, hi, "input", is_int=True, pos=lo > 0)
        self.names[name] = g
        return self.core.Sym({((g.idx, 1),): Fraction(1)}, None)

    def uf(self, name, args, lo=-2, hi=2, pos=False):
        return self.core.opaque_approx(name, [self.npx.pyval(a) for a in args], lo, hi, pos=pos)

    def fn(self, name, x):
        return self.npx.ELEM[name](x)

    def sqrt(self, x):
        return self.npx.s_sqrt(x)

    def power(self, x, e):
        return self.npx.s_pow(x, e)

    def abs(self, x):
        return self.npx.s_abs(x)

    def token(self, x, spec=""):
        return self.core.token(x, spec) if isinstance(x, self.core.Sym) else format(x, spec)

    def vfs(self, files=None):
        from . import loader
        v = loader.VFS()
        v.files.update(files or {})
        self.loader.vfs = v
        return v

    # logic
    def assume(self, c):
        c = self.boolish(c)
        q = self.core.quick_bool(c)
        if q is True:
            return
        if q is False:
            raise self.core.Infeasible()
        self.core.commit(c, c.z(), True)
        self.st.model = None
        st = self.st
        if not st.pool_n or not st.pool_alive.any():
            r, m = st.check([])
            if str(r) == "unsat":
                raise self.core.Infeasible()

    def boolish(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        return c

    def NOT(self, c):
        return self.core.sb_not(self.boolish(c))

    def AND(self, *cs):
        r = True
        for c in cs:
            r = self.core.sb_and(r, self.boolish(c))
        return r

    def OR(self, *cs):
        r = False
        for c in cs:
            r = self.core.sb_or(r, self.boolish(c))
        return r

    def eq(self, label, a, b, tol=TOL):
        core = self.core
        a, b = self.npx.pyval(a), self.npx.pyval(b)
        self.st.stats.obligations += 1
        la, lb = core.lift(a), core.lift(b)
        if la is NotImplemented or lb is NotImplemented:
            self.fail(label, "non-numeric value %r / %r" % (a, b))
            return
        if isinstance(la, float) or isinstance(lb, float):
            same = (la is lb) or (isinstance(la, float) and isinstance(lb, float) and (la == lb or (la != la and lb != lb)))
            if same:
                self.st.stats.normalised += 1
            else:
                self.fail(label, "non-finite value %r / %r" % (a, b))
            return
        d = la - lb
        self.values.append((label, la))
        if isinstance(d, float):
            self.fail(label, "non-finite difference")
            return
        if d.is_const():
            if abs(d.const_value()) <= Fraction(tol):
                self.st.stats.normalised += 1
                self.closed.append((label, la, lb, Fraction(tol)))
            else:
                self.fail(label, "constant difference %g" % float(d.const_value()))
            return
        neg = core.sb_or(d > Fraction(tol), d < -Fraction(tol)) if tol else core.SymBool("cmp", d, "!=")
        self.pending.append((label, neg, d))

    def ident(self, label, a, b):
        """The very same value (exact; on doubles: the same double)."""
        self.eq(label, a, b, tol=0)

    def loadtxt(self, fname, **k):
        return self.npx.c_loadtxt(fname, **k)

    def le(self, label, a, b, tol=TOL):
        """a <= b + tol"""
        core = self.core
        self.st.stats.obligations += 1
        la, lb = core.lift(self.npx.pyval(a)), core.lift(self.npx.pyval(b))
        if isinstance(la, float) or isinstance(lb, float):
            if not (float(la) <= float(lb) if isinstance(la, float) and isinstance(lb, float) else
                    (la < 0 if isinstance(la, float) else lb > 0)):
                self.fail(label, "non-finite value")
            else:
                self.st.stats.normalised += 1
            return
        d = la - lb
        neg = d > Fraction(tol)
        self.push_bool(label, neg, d)

    def push_bool(self, label, neg, d=None):
        q = self.core.quick_bool(neg)
        if q is False:
            self.st.stats.normalised += 1
        elif q is True:
            self.fail(label, "false on the whole path")
        else:
            self.pending.append((label, neg, d))

    def true(self, label, c):
        self.st.stats.obligations += 1
        c = self.boolish(c)
        self.push_bool(label, self.core.sb_not(c))

    def same(self, a, b):
        """Identical normal forms (no branching)."""
        d = self.core.lift(self.npx.pyval(a)) - self.core.lift(self.npx.pyval(b))
        return d.is_const() and d.const_value() == 0

    def skip(self, why):
        raise self.core.Skip(why)

    def true_now(self, c):
        """Branch on c (both sides are explored)."""
        return bool(self.boolish(c))

    def fail(self, label, why):
        self.pending.append((label + ": " + why, True, None))

    def expect_raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def is_finite(self, x):
        return not isinstance(self.npx.pyval(x), float) or math.isfinite(x)

    def quiet(self):
        return _Null()


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ concrete
class ConH(BaseH):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.values = []
        self.checked = 0

    def mod(self, name):
        import os
        repo = os.environ.get("DG1D_REPO", "/repo")
        for p in (os.path.join(repo, "analysis"), repo):
            if p not in sys.path:
                sys.path.insert(0, p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return importlib.import_module(name)

    def const(self, c):
        return float(Fraction(c))

    def zeros(self, shape):
        return np.zeros(shape)

    def array(self, v):
        return np.array(v, dtype=float)

    def plain(self, a):
        return np.asarray(a)

    def real(self, name, lo, hi, pos=False):
        if name not in self.inputs:
            v = 0.5 * (float(lo) + float(hi))
        else:
            v = float(self.inputs[name])
        return min(max(v, float(lo)), float(hi))

    def rounded(self, x):
        return float(x)

    def exact(self, x):
        x = float(x)
        return Fraction(x) if math.isfinite(x) else x

    def double(self, name):
        return np.float64(self.inputs[name])

    def isnan(self, x):
        return bool(np.isnan(x))

    def same(self, a, b):
        return bool(a == b or (a != a and b != b))

    def integer(self, name, lo, hi):
        return int(round(float(self.inputs.get(name, lo))))

    def uf(self, name, args, lo=-2, hi=2, pos=False):
        """A fixed generic smooth function with values in [lo, hi]."""
        import zlib
        s = zlib.crc32(name.encode()) % 1000 / 1000.0
        t = s
        for i, a in enumerate(args):
            a = float(a)
            t += math.sin(1.3 * s + 0.7 * i + 1.0) * a + 0.31 * math.cos(0.9 * i + s) * a * a
        u = 0.5 + 0.45 * math.sin(0.83 * t + 1.7 * s)
        return float(lo) + (float(hi) - float(lo)) * u

    def fn(self, name, x):
        return float(getattr(np, name)(x))

    def sqrt(self, x):
        return float(np.sqrt(x))

    def power(self, x, e):
        return float(np.power(float(x), float(e)))

    def abs(self, x):
        return abs(x)

    def token(self, x, spec=""):
        return format(x, spec) if spec else repr(x)

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def NOT(self, c):
        return not c

    def AND(self, *cs):
        return all(bool(c) for c in cs)

    def OR(self, *cs):
        return any(bool(c) for c in cs)

    def eq(self, label, a, b, tol=TOL):
        self.checked += 1
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            self.failures.append((label, repr(a), repr(b)))
            return
        self.values.append((label, a))
        if a == b or (a != a and b != b):
            return
        if not (abs(a - b) <= 0.5 * float(tol) + 1e-11 * (abs(a) + abs(b)) + 1e-12):
            self.failures.append((label, a, b))

    def ident(self, label, a, b):
        self.checked += 1
        if isinstance(a, str) or isinstance(b, str):
            ok = a == b
        else:
            a, b = float(a), float(b)
            ok = a == b or (a != a and b != b)
        if not ok:
            self.failures.append((label, a, b))

    def loadtxt(self, fname, **k):
        return np.loadtxt(fname, **k)

    def le(self, label, a, b, tol=TOL):
        self.checked += 1
        a, b = float(a), float(b)
        if not (a <= b + 0.5 * float(tol) + 1e-11 * (abs(a) + abs(b)) + 1e-12):
            self.failures.append((label, a, b))

    def true(self, label, c):
        self.checked += 1
        if not bool(c):
            self.failures.append((label, False, True))

    def same(self, a, b):
        return bool(abs(a - b) <= 1e-12 * (abs(a) + abs(b)))

    def skip(self, why):
        raise AssumeFailed()

    def true_now(self, c):
        return bool(c)

    def fail(self, label, why):
        self.failures.append((label, why, None))

    def vfs(self, files=None):
        raise RuntimeError("vfs in concrete mode")

    def is_finite(self, x):
        return math.isfinite(x)

    def quiet(self):
        return _Null()


# ------------------------------------------------------------------ concrete job runner
def run_concrete(job):
    """Executes one body on doubles; returns a JSON-able verdict."""
    h = ConH(job["inputs"])
    fn = resolve(job["body"])
    old = sys.stdout
    sys.stdout = io.StringIO()
    out = {"status": "held"}
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(h, **job["params"])
    except AssumeFailed:
        out = {"status": "assume"}
    except Exception as e:
        out = {"status": "exception", "exception": "%s: %s" % (type(e).__name__, e),
               "trace": traceback.format_exc().splitlines()[-6:]}
    except SystemExit as e:
        out = {"status": "exception", "exception": "SystemExit: %s" % e}
    finally:
        sys.stdout = old
    if h.failures:
        out["status"] = "violated"
        out["failures"] = [[str(l), _js(a), _js(b)] for l, a, b in h.failures[:8]]
    out["checked"] = h.checked
    out["values"] = [(l, v) for l, v in h.values[:400]]
    return out


def _js(v):
    if isinstance(v, float) and not math.isfinite(v):
        return repr(v)
    if isinstance(v, (int, float, str)) or v is None:
        return v
    return repr(v)
