"""numpy on symbolic values.

`SymArray` is an object-dtype ndarray subclass whose ufuncs and array functions
are carried out element by element on Python floats and `Sym` values.  `np_proxy`
stands in for the `numpy` module in the modules under test: it forwards
everything to numpy except array creation (so that freshly created float arrays
can hold symbolic values) and the few functions whose native implementation
insists on machine doubles.
"""
import builtins
import itertools
import math
import operator
import os
import re
import types

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, lift

NAN = float("nan")
INF = float("inf")


# ------------------------------------------------------------------- scalars
def pyval(v):
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v.item()
    return v


def is_sym(v):
    return isinstance(v, (Sym, SymBool))


def s_div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b if not isinstance(a, SymBool) else lift(a) / b
    try:
        return a / b
    except ZeroDivisionError:
        a = float(a)
        if a == 0 or a != a:
            return NAN
        neg = (a < 0) != (math.copysign(1.0, b) < 0)
        return -INF if neg else INF


def s_pow(a, b):
    if is_sym(a) or is_sym(b):
        return lift(a) ** b
    with np.errstate(all="ignore"):
        r = np.power(np.asarray(a), np.asarray(b)) if isinstance(a, int) and isinstance(b, int) and b >= 0 \
            else np.power(float(a), float(b))
    return r.item()


def s_sqrt(a):
    if is_sym(a):
        return core.sym_sqrt(lift(a))
    a = float(a)
    return math.sqrt(a) if a >= 0 else NAN


def s_abs(a):
    return abs(lift(a)) if is_sym(a) else abs(a)


def _cmp(a, b, op):
    if isinstance(a, SymBool):
        a = lift(a)
    if isinstance(b, SymBool):
        b = lift(b)
    return op(a, b)


def isnanf(x):
    return isinstance(x, float) and x != x


def pick(a, b):
    """1: a >= b on the path, -1: a <= b on the path, 0: open (syntactically)."""
    d = lift(a) - lift(b)
    if not isinstance(d, Sym):
        return 0
    st = core.sign_set(d)
    return 1 if -1 not in st else (-1 if 1 not in st else 0)


def s_max(a, b):
    if isnanf(a):
        return a
    if isnanf(b):
        return b
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    w = pick(a, b)
    if w:
        return a if w > 0 else b
    return a if bool(_cmp(a, b, operator.ge)) else b


def s_min(a, b):
    if isnanf(a):
        return a
    if isnanf(b):
        return b
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    w = pick(a, b)
    if w:
        return b if w > 0 else a
    return a if bool(_cmp(a, b, operator.le)) else b


def s_sign(a):
    if isnanf(a):
        return a
    if not is_sym(a):
        return (a > 0) - (a < 0) if isinstance(a, int) else float((a > 0) - (a < 0))
    if bool(a > 0):
        return 1.0
    return -1.0 if bool(a < 0) else 0.0


def s_isnan(a):
    return isnanf(a)


def s_isinf(a):
    return isinstance(a, float) and math.isinf(a)


def s_isfinite(a):
    return not (isinstance(a, float) and (a != a or math.isinf(a)))


def s_not(a):
    if isinstance(a, SymBool):
        return core.sb_not(a)
    if isinstance(a, Sym):
        return core.sb_not(a != 0) if not a.is_const() else not a.const_value()
    return not a


def as_bool_s(a):
    if isinstance(a, Sym):
        return a != 0
    return a


def s_and(a, b):
    a, b = as_bool_s(a), as_bool_s(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return core.sb_and(a, b)
    return bool(a) and bool(b)


def s_or(a, b):
    a, b = as_bool_s(a), as_bool_s(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return core.sb_or(a, b)
    return bool(a) or bool(b)


def s_bitand(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return s_and(a, b)
    return a & b


def s_bitor(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return s_or(a, b)
    return a | b


def s_invert(a):
    if isinstance(a, (bool, SymBool)):
        return s_not(a)
    return ~a


def s_copysign(a, b):
    m = s_abs(a)
    neg = bool(b < 0) if is_sym(b) else math.copysign(1.0, b) < 0
    return -m if neg else m


def s_heaviside(a, b):
    if bool(a < 0):
        return 0.0
    return b if bool(_cmp(a, 0, operator.eq)) else 1.0


TRIG = {"sin": (-1, 1), "cos": (-1, 1), "tanh": (-1, 1), "exp": None, "log": None, "tan": None,
        "arctan": (-2, 2), "sinh": None, "cosh": None, "log10": None, "expm1": None, "log1p": None, "exp2": None}


ODD = ("sin", "tan", "tanh", "sinh", "arctan", "arcsin", "arcsinh", "arctanh")
EVEN = ("cos", "cosh")


def s_trig(name):
    rng = TRIG[name]

    def f(a):
        if is_sym(a):
            a = lift(a)
            if not a.is_const():
                lo, hi = rng if rng else (None, None)
                if (name in ODD or name in EVEN) and a.num and core.fact_key(a.num)[1] < 0:
                    return -f(-a) if name in ODD else f(-a)
                return core.opaque(name, [a], lo, hi, pos=name in ("exp", "cosh", "exp2"))
            a = float(a.const_value())
        with np.errstate(all="ignore"):
            return getattr(np, name)(float(a)).item()
    return f


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_mul(a, b):
    if isinstance(a, SymBool):
        a = lift(a)
    return a * b


def s_add(a, b):
    if isinstance(a, SymBool):
        a = lift(a)
    return a + b


def s_sub(a, b):
    if isinstance(a, SymBool):
        a = lift(a)
    return a - b


def s_floordiv(a, b):
    return a // b


def s_integral(symbolic, concrete, a):
    if is_sym(a):
        a = lift(a)
        if not a.is_const():
            return symbolic(a)
        a = float(a.const_value())
    return float(concrete(float(a)))


def s_recip(a):
    return s_div(1.0, a)


ELEM = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div, "true_divide": s_div,
    "power": s_pow, "float_power": s_pow, "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": s_abs, "fabs": s_abs, "sqrt": s_sqrt, "square": lambda a: a * a, "cbrt": lambda a: s_pow(a, 1.0 / 3),
    "reciprocal": s_recip, "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min, "sign": s_sign,
    "less": lambda a, b: _cmp(a, b, operator.lt), "less_equal": lambda a, b: _cmp(a, b, operator.le),
    "greater": lambda a, b: _cmp(a, b, operator.gt), "greater_equal": lambda a, b: _cmp(a, b, operator.ge),
    "equal": lambda a, b: _cmp(a, b, operator.eq), "not_equal": lambda a, b: _cmp(a, b, operator.ne),
    "logical_and": s_and, "logical_or": s_or, "logical_not": s_not, "bitwise_and": s_bitand,
    "bitwise_or": s_bitor, "invert": s_invert, "isnan": s_isnan, "isinf": s_isinf, "isfinite": s_isfinite,
    "copysign": s_copysign, "hypot": s_hypot, "floor_divide": s_floordiv, "heaviside": s_heaviside,
    "floor": lambda a: s_integral(core.sym_floor, np.floor, a), "ceil": lambda a: s_integral(core.sym_ceil, np.ceil, a),
    "rint": lambda a: s_integral(core.sym_round, np.rint, a), "trunc": lambda a: s_integral(core.sym_trunc, np.trunc, a),
    "signbit": lambda a: a < 0, "conjugate": lambda a: a,
    "logical_xor": lambda a, b: bool(a) != bool(b),
}
for _n in TRIG:
    ELEM[_n] = s_trig(_n)
BOOLISH = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_not", "isnan", "isinf", "isfinite", "signbit", "logical_xor"}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


# ------------------------------------------------------------------- arrays
def has_sym(a):
    if isinstance(a, (Sym, SymBool)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(is_sym(v) for v in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(v) for v in a)
    return False


def is_symlike(a):
    """Anything that must be handled by this module."""
    if isinstance(a, (Sym, SymBool, SymArray)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(is_symlike(v) for v in a)
    return False


def obj(a):
    """Plain object ndarray view/copy of anything array-like."""
    if isinstance(a, np.ndarray):
        b = a.view(np.ndarray)
        if b.dtype != object:
            r = np.empty(b.shape, dtype=object)
            r[...] = b.tolist() if b.ndim else b.item()
            if b.ndim:
                r = np.array(b.tolist(), dtype=object).reshape(b.shape)
            return r
        return b
    if isinstance(a, (Sym, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, (list, tuple)):
        parts = [obj(v) for v in a]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = np.broadcast_shapes(*[p.shape for p in parts])
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous array of symbolic values")
        r = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            r[i] = p[()] if p.ndim == 0 else p
        return r
    r = np.empty((), dtype=object)
    r[()] = pyval(a)
    return r


def wrap(a):
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            if a.ndim == 0:
                return a[()]
            return a.view(SymArray)
        return a
    return a


def demote(a):
    """Object array without symbolic content -> native bool array when all bool."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.ndim and a.size and \
            all(isinstance(v, (bool, np.bool_)) for v in a.flat):
        return a.astype(bool)
    return a


def force_bool(a):
    """Object array of SymBool -> native bool array, forking."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.size == 0:
            return a.view(np.ndarray).astype(bool)
        return np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)
    return a


def fix_key(k):
    if isinstance(k, tuple):
        return tuple(fix_key(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, list) and is_symlike(k):
        k = obj(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        vals = list(k.flat)
        if any(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
            return force_bool(k)
        return np.array([int(v) for v in vals], dtype=int).reshape(k.shape)
    if isinstance(k, SymArray):
        return k.view(np.ndarray)
    return k


class SymArray(np.ndarray):
    __array_priority__ = 5000.0

    def __array_finalize__(self, o):
        pass

    def __getitem__(self, k):
        return wrap(np.ndarray.__getitem__(self, fix_key(k)))

    def __setitem__(self, k, v):
        if self.dtype == object:
            if isinstance(v, np.ndarray):
                v = obj(v)
                if v.ndim == 0:
                    v = v[()]
            elif isinstance(v, (list, tuple)):
                v = obj(v)
            else:
                v = pyval(v)
            if isinstance(v, (str, bytes)):
                v = FloatShim(v)             # as numpy does for an array of floats
            base = self.view(np.ndarray)
            if isinstance(v, Sym) or isinstance(v, SymBool):
                k = fix_key(k)
                if isinstance(k, tuple) and all(isinstance(i, (int, np.integer)) for i in k) and len(k) == self.ndim:
                    base[k] = v
                elif isinstance(k, (int, np.integer)) and self.ndim == 1:
                    base[k] = v
                else:
                    base[k] = obj(v)
                return
            if isinstance(v, bool):
                v = float(v)
            elif isinstance(v, int):
                v = float(v)
            elif isinstance(v, np.ndarray) and any(isinstance(e, int) for e in v.flat):
                v = np.array([float(e) if isinstance(e, int) else e for e in v.flat] + [None], dtype=object)[:-1].reshape(v.shape)
            base[fix_key(k)] = v
        else:
            if is_symlike(v):
                v = obj(v)
                if any(isinstance(e, (Sym,)) and not e.is_const() for e in v.flat):
                    raise Unsupported("symbolic value stored into an integer array")
                if v.ndim:
                    v = np.array([int(e) for e in v.flat]).reshape(v.shape)
                else:
                    v = int(v[()])
            np.ndarray.__setitem__(self, fix_key(k), v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __deepcopy__(self, memo):
        return self.view(np.ndarray).copy().view(SymArray)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.reshape(-1)[0]) if self.size == 1 else NotImplemented

    def copy(self, order="C"):
        return self.view(np.ndarray).copy().view(SymArray)

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def tolist(self):
        return [v.tolist() if isinstance(v, np.ndarray) else v for v in self]

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def fill(self, v):
        self[...] = pyval(v)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return method_reduce("add", self, axis, out, keepdims, k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return method_reduce("multiply", self, axis, out, keepdims, k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return method_reduce("maximum", self, axis, out, keepdims, k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return method_reduce("minimum", self, axis, out, keepdims, k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = method_reduce("add", self, axis, None, keepdims, k)
        return store(out, s / reduced_size(self, axis))

    def any(self, axis=None, **k):
        return force_bool(np.array(self, dtype=object) if self.dtype == object else self).any(axis)

    def all(self, axis=None, **k):
        return force_bool(np.array(self, dtype=object) if self.dtype == object else self).all(axis)

    def nonzero(self):
        return np.nonzero(truth(self))

    def dot(self, b):
        return np_dot(self, b)

    def __matmul__(self, b):
        return np_matmul(self, b)

    def __rmatmul__(self, a):
        return np_matmul(a, self)

    def argmax(self, axis=None, **k):
        return argbest(self, operator.gt, axis)

    def argmin(self, axis=None, **k):
        return argbest(self, operator.lt, axis)

    def clip(self, a_min=None, a_max=None, out=None, min=None, max=None, **k):
        return store(out, np_clip(self, a_min if min is None else min, a_max if max is None else max))

    def round(self, decimals=0, out=None):
        return store(out, np_round(self, decimals))


def argbest(a, op, axis=None):
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax with axis")
    f = list(obj(a).flat)
    b = 0
    for i in range(1, len(f)):
        if bool(_cmp(f[i], f[b], op)):
            b = i
    return b


class SingleArray(SymArray):
    """Single-precision storage: what is stored is rounded (views through slices: not modelled)."""

    def __setitem__(self, k, v):
        v = pyval(v) if not isinstance(v, (np.ndarray, list, tuple)) else obj(v)
        SymArray.__setitem__(self, k, singles(v) if isinstance(v, np.ndarray) else single(v))


def truth(a):
    """native bool array of element truth, forking"""
    a = obj(a)
    return np.array([bool(v) for v in a.flat] + [False], dtype=bool)[:-1].reshape(a.shape)


def single(v):
    """Nearest single-precision number (symbolically: a relative error of at most 2**-24)."""
    if isinstance(v, Sym) and not v.is_const():
        return core.read_token((v, "single"), "float")
    if isinstance(v, SymBool):
        return v
    return float(np.float32(float(v)))


def singles(a):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = single(a[i])
    return r.view(SymArray)


def low_precision(dt):
    return dt.kind == "f" and dt.itemsize < 8


def astype(a, dtype):
    dtype = native_dtype(dtype)
    try:
        dt = np.dtype(dtype)
    except TypeError:
        dt = np.dtype(float)
    if low_precision(dt):
        return singles(obj(a))
    if dt == object or dt.kind in "fc":
        if a.dtype == object:
            b = np.array([lift(v) if isinstance(v, SymBool) else (float(v) if isinstance(v, (bool, int)) else v)
                          for v in a.flat] + [None], dtype=object)[:-1].reshape(a.shape)
            return b.view(SymArray)
        return obj(np.asarray(a, dtype=float)).view(SymArray)
    if dt.kind == "b":
        return truth(a)
    if dt.kind in "iu":
        if a.dtype == object:
            return np.array([int(v) for v in a.flat] + [0], dtype=dt)[:-1].reshape(a.shape).view(SymArray)
        return a.view(np.ndarray).astype(dt)
    return a.view(np.ndarray).astype(dt)


def elementwise(name, arrays):
    f = ELEM.get(name)
    if f is None:
        raise Unsupported("numpy ufunc %s on symbolic values" % name)
    arrs = [obj(a) for a in arrays]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a[()] for a in arrs])
    bs = np.broadcast_arrays(*arrs, subok=False) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    if len(bs) == 1:
        for i, v in enumerate(bs[0].flat):
            of[i] = f(v)
    else:
        for i, vs in enumerate(zip(*[b.flat for b in bs])):
            of[i] = f(*vs)
    out = of.reshape(bs[0].shape)
    if name in BOOLISH or name in ("invert", "bitwise_and", "bitwise_or"):
        out = demote(out)
    return wrap(out)


def reduced_size(a, axis):
    if axis is None:
        return obj(a).size
    return int(np.prod([np.shape(a)[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))


def method_reduce(name, a, axis, out, keepdims, k):
    if k.get("where", True) is not True:
        raise Unsupported("where= in a reduction")
    return store(out, reduce_named(name, a, axis, keepdims, k.get("initial")))


def reduce_named(name, a, axis=None, keepdims=False, initial=None):
    f = ELEM[name]
    a = obj(a)
    if axis is None:
        vals = list(a.flat)
        r = reduce_list(f, vals, name, initial)
        if keepdims:
            z = np.empty((1,) * a.ndim, dtype=object)
            z.flat[0] = r
            return wrap(z)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = obj(reduce_named(name, a, ax, keepdims))
        return wrap(a) if a.ndim else a[()]
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape[1:], dtype=object)
    for idx in np.ndindex(*b.shape[1:]):
        out[idx] = reduce_list(f, [b[(i,) + idx] for i in range(b.shape[0])], name, initial)
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(demote(out)) if out.ndim else out[()]


def reduce_list(f, vals, name, initial=None):
    if initial is not None and not isinstance(initial, type(np._NoValue)):
        vals = [initial] + vals
    if not vals:
        if name in IDENT:
            return IDENT[name]
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    where = kw.pop("where", True)
    plain = not any(is_symlike(i) and (not isinstance(i, np.ndarray) or i.dtype == object) for i in inputs) and \
        (out is None or all(o is None or o.dtype != object for o in out))
    if plain:
        ins = [i.view(np.ndarray) if isinstance(i, SymArray) else i for i in inputs]
        if out is not None:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
        if where is not True:
            kw["where"] = where
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and out[0] is not None:
            return out[0]
        if isinstance(r, np.ndarray) and any(isinstance(i, SymArray) for i in inputs):
            return r.view(SymArray)
        return r
    if method == "__call__":
        if name in ("matmul", "vecdot"):
            r = np_matmul(*inputs)
        elif name == "divmod" or ufunc.nout != 1:
            raise Unsupported("ufunc %s" % name)
        else:
            r = elementwise(name, inputs)
    elif method == "reduce":
        axis = kw.get("axis", 0)
        r = reduce_named(name, inputs[0], axis, bool(kw.get("keepdims", False)), kw.get("initial"))
    elif method == "accumulate":
        a = obj(inputs[0])
        axis = kw.get("axis", 0)
        b = np.moveaxis(a, axis, 0).copy()
        for i in range(1, b.shape[0]):
            b[i] = obj(elementwise(name, [b[i - 1], b[i]])) if b.ndim > 1 else ELEM[name](b[i - 1], b[i])
        r = wrap(np.moveaxis(b, 0, axis))
    elif method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = elementwise(name, [a.reshape(a.shape + (1,) * b.ndim), b])
    elif method == "at":
        a, k, b = inputs[0], inputs[1], inputs[2]
        kk = np.asarray(fix_key(k)).reshape(-1)
        bb = np.broadcast_to(obj(b), kk.shape)
        for i, j in enumerate(kk):
            a[int(j)] = ELEM[name](a[int(j)], bb[i])
        return None
    else:
        raise Unsupported("ufunc method %s" % method)
    if where is not True:
        base = out[0] if out is not None and out[0] is not None else None
        w = truth(np.broadcast_to(obj(where), np.shape(r)))
        rr = np.empty(np.shape(r), dtype=object)
        src = obj(base) if base is not None else np.full(np.shape(r), NAN, dtype=object)
        for idx in np.ndindex(*rr.shape):
            rr[idx] = obj(r)[idx] if w[idx] else src[idx]
        r = wrap(rr)
    if out is not None and out[0] is not None:
        o = out[0]
        if isinstance(o, SymArray):
            o[...] = r
            return o
        if o.dtype == object:
            o[...] = obj(r)
            return o
        if isinstance(r, np.ndarray) and r.dtype != object:
            o[...] = r
            return o
        if has_sym(r):
            # in-place update of a native float array (for example a slice of a constant) with symbolic data
            raise Unsupported("symbolic result stored into a native %s array" % o.dtype)
        o[...] = np.array(obj(r), dtype=float)
        return o
    return r


def np_dot(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise("multiply", [a, b])
    if a.ndim == 1 and b.ndim == 1:
        return sum_prod(a, b)
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = sum_prod(a[idx], b)
        return wrap(out)
    bt = np.moveaxis(b, -2, -1)
    out = np.empty(a.shape[:-1] + bt.shape[:-1], dtype=object)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*bt.shape[:-1]):
            out[i + j] = sum_prod(a[i], bt[j])
    return wrap(out)


def np_matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if b.ndim < 3 and a.ndim < 3 or b.ndim == 1:
        return np_dot(a, b)
    if a.ndim == 1:
        a2, drop = a[None, :], True
    else:
        a2, drop = a, False
    lead = np.broadcast_shapes(a2.shape[:-2], b.shape[:-2])
    A, B = np.broadcast_to(a2, lead + a2.shape[-2:]), np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a2.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*lead):
        out[i] = np_dot(A[i], B[i])
    return wrap(out[..., 0, :] if drop else out)


def sum_prod(x, y):
    if len(x) != len(y):
        raise ValueError("shapes (%d,) and (%d,) not aligned" % (len(x), len(y)))
    r = None
    for p, q in zip(x, y):
        if (isinstance(p, float) and p == 0.0 and isinstance(q, Sym)) or \
                (isinstance(q, float) and q == 0.0 and isinstance(p, Sym)):
            t = 0.0
        else:
            t = p * q
        r = t if r is None else r + t
    return 0.0 if r is None else r


def np_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = elementwise("maximum", [r, lo])
    if hi is not None:
        r = elementwise("minimum", [r, hi])
    return r


def np_where(cond, x=None, y=None):
    if x is None:
        return np.nonzero(truth(cond))
    c, x, y = np.broadcast_arrays(obj(cond), obj(x), obj(y), subok=False)
    out = np.empty(c.shape, dtype=object)
    for idx in np.ndindex(*c.shape):
        out[idx] = x[idx] if bool(c[idx]) else y[idx]
    return wrap(out) if out.ndim else out[()]


def np_einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        args, letters = [spec] + list(ops), "abcdefghijklmnopqrstuvwxyz"
        sub = ["".join(letters[i] for i in q) for q in args[1::2]]
        out = "->" + "".join(letters[i] for i in args[-1]) if len(args) % 2 else ""
        return np_einsum(",".join(sub) + out, *args[0:len(args) - len(args) % 2:2])
    spec = spec.replace(" ", "")
    if "..." in spec:
        lhs, arrow, rhs = spec.partition("->")
        used = set(spec) - set(",.->")
        free = [c for c in "ABCDEFGHIJ" if c not in used]
        terms, longest = [], ""
        for t, o in zip(lhs.split(","), ops):
            n = np.ndim(o) - len(t.replace("...", ""))
            e = "".join(free[:max(c for c in (np.ndim(q) - len(w.replace("...", "")) for w, q in zip(lhs.split(","), ops) if "..." in w))])
            e = e[len(e) - n:] if n else ""
            longest = builtins.max(longest, e, key=len)
            terms.append(t.replace("...", e))
        if not arrow:
            cs = "".join(t.replace("...", "") for t in lhs.split(","))
            rhs = "..." + "".join(sorted(c for c in set(cs) - {","} if cs.count(c) == 1))
        return np_einsum(",".join(terms) + "->" + rhs.replace("...", longest), *ops)
    ins, arrow, outs = spec.partition("->")
    ins = ins.split(",")
    if not arrow:
        letters = [c for c in "".join(ins)]
        outs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ops = [obj(o) for o in ops]
    dims = {}
    for t, o in zip(ins, ops):
        if "." in t:
            raise Unsupported("einsum ellipsis")
        for c, n in zip(t, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                raise ValueError("einsum dimension mismatch")
    red = [c for c in dims if c not in outs]
    out = np.empty([dims[c] for c in outs], dtype=object)
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outs, oi))
        acc = None
        for ri in itertools.product(*[range(dims[c]) for c in red]):
            env.update(zip(red, ri))
            t = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)]
                t = v if t is None else s_mul(t, v)
            acc = t if acc is None else acc + t
        out[oi] = 0.0 if acc is None else acc
    return wrap(out) if out.ndim else out[()]


def to_native(a):
    a = obj(a)
    if any(is_sym(v) and not (isinstance(v, Sym) and v.is_const()) for v in a.flat):
        raise Unsupported("symbolic matrix in a dense linear-algebra routine")
    return np.array([float(v) for v in a.flat] + [0.0])[:-1].reshape(a.shape)


def sym_solve(A, B):
    A = to_native(A)
    if not really_sym(B):
        return floatify(np.linalg.solve(A, to_native(B)))
    return np_dot(np.linalg.inv(A), B)


def really_sym(a):
    """Whether any value is not a plain number."""
    if isinstance(a, (Sym, SymBool)):
        return not (isinstance(a, Sym) and a.is_const())
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(really_sym(v) for v in a.flat)
    if isinstance(a, (list, tuple)):
        return any(really_sym(v) for v in a)
    return False


def plain(a):
    """Constant symbolic containers as native arrays (anything else unchanged)."""
    if isinstance(a, Sym):
        return float(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return to_native(a)
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, (list, tuple)) and any(is_symlike(v) for v in a):
        return type(a)(plain(v) for v in a)
    return a


def np_gradientless(*a, **k):
    raise Unsupported("numpy function on symbolic values")


def np_any(a, axis=None, **k):
    return truth(a).any(axis)


def np_all(a, axis=None, **k):
    return truth(a).all(axis)


def np_count_nonzero(a, axis=None, **k):
    return np.count_nonzero(truth(a), axis)


def np_mean(a, axis=None, keepdims=False, **k):
    if k.get("where") is not None or k.get("out") is not None:
        raise Unsupported("mean with out or where")
    return reduce_named("add", obj(a), axis, keepdims) / reduced_size(a, axis)


def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if returned or keepdims is not False:
        raise Unsupported("average with returned or keepdims")
    if weights is None:
        return np_mean(a, axis)
    a, w = obj(a), obj(weights)
    if w.shape != a.shape:
        w = np.swapaxes(np.broadcast_to(w, (a.ndim - 1) * (1,) + w.shape), -1, axis)
        w = np.broadcast_to(w, a.shape)
    return reduce_named("add", obj(elementwise("multiply", [a, w])), axis) / reduce_named("add", w, axis)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = np.broadcast_arrays(obj(a), obj(b), subok=False)
    return builtins.all(bool(s_abs(x - y) <= atol + rtol * s_abs(y)) for x, y in zip(a.flat, b.flat))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise("less_equal", [elementwise("absolute", [elementwise("subtract", [a, b])]),
                                      elementwise("add", [atol, elementwise("multiply", [rtol, elementwise("absolute", [b])])])])


def np_array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    return a.shape == b.shape and builtins.all(bool(_cmp(x, y, operator.eq)) for x, y in zip(a.flat, b.flat))


def np_round(a, decimals=0, **k):
    return unary_map(a, lambda x: core.sym_round(x, decimals) if isinstance(x, Sym) else np.round(x, decimals))


def unary_map(a, f):
    if not isinstance(a, np.ndarray):
        if isinstance(a, (list, tuple)):
            a = obj(a)
        else:
            return f(a)
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        out[i] = f(v)
    return wrap(out)


def np_norm(a, ord=None, axis=None, keepdims=False):
    a = obj(a)
    if axis is None and a.ndim > 1 and ord is None:
        a = a.reshape(-1)
    if axis is None and a.ndim > 1 or isinstance(axis, tuple):
        raise Unsupported("matrix norm")
    m = obj(elementwise("absolute", [a]))
    if ord in (None, 2):
        r = reduce_named("add", obj(elementwise("multiply", [a, a])), axis, keepdims)
        return unary_map(r, s_sqrt) if isinstance(r, np.ndarray) else s_sqrt(r)
    if ord == 1:
        return reduce_named("add", m, axis, keepdims)
    if ord in (np.inf, -np.inf):
        return reduce_named("maximum" if ord > 0 else "minimum", m, axis, keepdims)
    raise Unsupported("norm")


def np_vectorize(f, otypes=None, **k0):
    def g(*a, **k):
        if not (args_need(a, k)):
            return np.vectorize(f, otypes=otypes)(*a, **k)
        arrs = np.broadcast_arrays(*[obj(x) for x in a], subok=False)
        out = None
        for idx in np.ndindex(*arrs[0].shape):
            r = f(*[x[idx] for x in arrs], **k)
            if isinstance(r, tuple):
                raise Unsupported("vectorize with several outputs")
            if out is None:
                out = np.empty(arrs[0].shape, dtype=object)
            out[idx] = r
        if out is None:
            raise Unsupported("vectorize of an empty array")
        return wrap(out) if out.ndim else out[()]
    return g


def np_choose(a, choices, out=None, **k):
    arrs = np.broadcast_arrays(obj(a), *[obj(c) for c in choices], subok=False)
    r = np.empty(arrs[0].shape, dtype=object)
    for idx in np.ndindex(*r.shape):
        c = arrs[0][idx]
        r[idx] = arrs[1 + (int(bool(c)) if isinstance(c, (SymBool, bool, np.bool_)) else int(c))][idx]
    return store(out, wrap(r) if r.ndim else r[()])


def sym_det(a):
    a = obj(a)
    n = a.shape[0]
    if a.ndim != 2 or n > 5:
        raise Unsupported("determinant")
    if n == 1:
        return a[0, 0]
    s = 0
    for j in range(n):
        c = a[0, j]
        if not is_sym(c) and c == 0:
            continue
        t = s_mul(c, sym_det(np.delete(a[1:], j, 1)))
        s = s_sub(s, t) if j % 2 else s_add(s, t)
    return s


def m_sqrt(a):
    """math.sqrt refuses negative numbers."""
    if bool(lift(a) < 0):
        raise ValueError("math domain error")
    return s_sqrt(a)


def np_diff(a, n=1, axis=-1, **k):
    a = obj(a)
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        r = obj(elementwise("subtract", [b[1:], b[:-1]]))
        a = np.moveaxis(r, 0, axis)
    return wrap(a)


def np_polyval(p, x):
    y = 0.0
    for c in obj(p):
        y = y * x + c
    return y


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    return r


def np_sort(a, axis=-1, **k):
    a = obj(a)
    if a.ndim != 1:
        b = np.moveaxis(a.copy(), axis, -1)
        for i in np.ndindex(*b.shape[:-1]):
            b[i] = np_sort(b[i])
        return wrap(np.moveaxis(b, -1, axis))
    r = np.empty(a.shape, dtype=object)
    for i, v in enumerate(sorted(list(a))):
        r[i] = v
    return wrap(r)


def np_median(a, axis=None, **k):
    if axis is None:
        v = sorted(list(obj(a).flat))
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    b = np.moveaxis(obj(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = np_median(b[i])
    return wrap(out)


def np_copy(a, **k):
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return wrap(a.view(np.ndarray).copy())
        return floatify(a.view(np.ndarray).copy())
    return floatify(np.array(a))


def np_fill_like(v):
    def f(a, dtype=None, **k):
        sh = k.get("shape") or np.shape(a)
        src = getattr(a, "dtype", None)
        if dtype is None and src is not None and src.kind in "iub":
            dtype = src
        return create(lambda: np.full(sh, v), dtype)
    return f


def np_full_like(a, v, dtype=None, **k):
    r = np_fill_like(0.0)(a, dtype)
    r[...] = v
    return r


def np_putmask(a, mask, values):
    m = truth(mask)
    v = np.broadcast_to(obj(values), a.shape) if np.size(obj(values)) == 1 else obj(values)
    for i, idx in enumerate(np.ndindex(*a.shape)):
        if m[idx]:
            a[idx] = v[idx]


def np_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        s = np.broadcast_to(obj(src), dst.shape)
        w = truth(np.broadcast_to(obj(where), dst.shape))
        for idx in np.ndindex(*dst.shape):
            if w[idx]:
                dst[idx] = s[idx]


def named_reduce(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        r = reduce_named(name, a, axis, bool(keepdims) and keepdims is not np._NoValue, k.get("initial"))
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def np_argwhere(a):
    return np.argwhere(truth(a))


def np_flatnonzero(a):
    return np.flatnonzero(truth(a))


def np_nonzero(a):
    return np.nonzero(truth(a))


def np_cumsum(a, axis=None, **k):
    a = obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return dispatch_ufunc(np.add, "accumulate", (a,), {"axis": axis})


def np_outer(a, b, **k):
    return dispatch_ufunc(np.multiply, "outer", (obj(a).reshape(-1), obj(b).reshape(-1)), {})


def np_tensordot(*a, **k):
    raise Unsupported("tensordot")


AF = {
    "dot": lambda a, b, out=None: store(out, np_dot(a, b)), "inner": lambda a, b: np_dot(a, np.swapaxes(obj(b), -1, -2) if np.ndim(b) > 1 else b),
    "vdot": lambda a, b: np_dot(obj(a).reshape(-1), obj(b).reshape(-1)),
    "matmul": lambda a, b, out=None, **k: store(out, np_matmul(a, b)), "einsum": lambda *a, **k: np_einsum(*a, **k),
    "where": np_where, "any": np_any, "all": np_all, "alltrue": np_all, "sometrue": np_any,
    "count_nonzero": np_count_nonzero, "nonzero": np_nonzero, "flatnonzero": np_flatnonzero, "argwhere": np_argwhere,
    "clip": lambda a, a_min=None, a_max=None, out=None, **k: store(out, np_clip(a, a_min, a_max)),
    "sum": named_reduce("add"), "prod": named_reduce("multiply"), "amax": named_reduce("maximum"), "max": named_reduce("maximum"),
    "amin": named_reduce("minimum"), "min": named_reduce("minimum"), "mean": np_mean, "average": np_average, "choose": np_choose,
    "isscalar": lambda a: not isinstance(a, np.ndarray), "issubdtype": lambda a, b: np.issubdtype(np.float64 if a == object or a is F64Shim or a is FloatShim else a, b),
    "allclose": np_allclose, "isclose": np_isclose, "array_equal": np_array_equal, "round": np_round, "around": np_round, "round_": np_round,
    "norm": np_norm, "inv": lambda a: np.linalg.inv(to_native(a)), "solve": lambda a, b: sym_solve(a, b), "det": lambda a: sym_det(a) if really_sym(a) else np.linalg.det(to_native(a)),
    "diff": np_diff, "ediff1d": np_diff, "polyval": np_polyval, "select": np_select, "sort": np_sort, "median": np_median,
    "copy": np_copy, "zeros_like": np_fill_like(0.0), "ones_like": np_fill_like(1.0), "empty_like": np_fill_like(NAN), "full_like": np_full_like,
    "putmask": np_putmask, "copyto": np_copyto, "cumsum": np_cumsum, "outer": np_outer, "argmax": lambda a, axis=None, **k: argbest(obj(a).view(SymArray), operator.gt, axis),
    "argmin": lambda a, axis=None, **k: argbest(obj(a).view(SymArray), operator.lt, axis), "ptp": lambda a, **k: reduce_named("maximum", a) - reduce_named("minimum", a),
    "shape": lambda a: np.shape(obj(a)), "size": lambda a, axis=None: np.size(obj(a), axis), "ndim": lambda a: obj(a).ndim,
    "isreal": lambda a: np.ones(np.shape(obj(a)), dtype=bool), "real": lambda a: a, "nan_to_num": lambda a, **k: a,
    "may_share_memory": lambda a, b, **k: np.may_share_memory(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)),
    "shares_memory": lambda a, b, **k: np.shares_memory(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)),
    "extract": lambda c, a: wrap(obj(a).reshape(-1)[truth(c).reshape(-1)]),
    "trapz": None,
}


def store(out, r):
    if out is None:
        return r
    out[...] = r
    return out


def strip(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, (Sym, SymBool)):
        return obj(a)
    if isinstance(a, (list, tuple)):
        if any(isinstance(v, (Sym, SymBool)) for v in a):
            return obj(a)
        return type(a)(strip(v) for v in a)
    return a


def rewrap(r):
    if isinstance(r, np.ndarray):
        return wrap(r) if r.dtype == object else r
    if isinstance(r, (list, tuple)) and any(isinstance(v, np.ndarray) for v in r):
        return type(r)(rewrap(v) for v in r)
    return r


def args_need(args, kwargs):
    for a in itertools.chain(args, kwargs.values()):
        if isinstance(a, (Sym, SymBool)):
            return True
        if isinstance(a, np.ndarray) and a.dtype == object:
            return True
        if isinstance(a, (list, tuple)) and args_need(a, {}):
            return True
    return False


def array_function(func, args, kwargs):
    name = func.__name__
    if args_need(args, kwargs):
        h = AF.get(name)
        if h is not None:
            return h(*args, **kwargs)
    r = func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()})
    if name in ("linspace", "arange"):
        return r
    return rewrap(r)


# ------------------------------------------------------------- creation
def floatify(a):
    """Native float array -> SymArray of Python floats; other dtypes unchanged."""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return wrap(a)
        if a.dtype.kind == "f":
            return obj(a).view(SymArray) if a.ndim else a
        if a.dtype.kind in "iub":
            return a.view(SymArray) if a.ndim else a
    return a


def create(make, dtype=None):
    dtype = native_dtype(dtype)
    if dtype is None or dtype in (float, object, np.float64, "float", "float64", "d"):
        return obj(np.asarray(make(), dtype=float)).view(SymArray)
    try:
        dt = np.dtype(dtype)
    except TypeError:
        dt = np.dtype(float)
    a = make()
    if low_precision(dt):
        return obj(np.asarray(a, dtype=float)).view(SingleArray)
    if dt.kind == "f" or dt == object:
        return obj(np.asarray(a, dtype=float)).view(SymArray)
    return np.asarray(a).astype(dt).view(SymArray)


def c_zeros(shape, dtype=None, *a, **k):
    return create(lambda: np.zeros(shape), dtype)


def c_ones(shape, dtype=None, *a, **k):
    return create(lambda: np.ones(shape), dtype)


def c_empty(shape, dtype=None, *a, **k):
    if dtype is not None and np.dtype(native_dtype(dtype)).kind in "iub":
        return create(lambda: np.zeros(shape), dtype)
    return create(lambda: np.full(shape, NAN), dtype)


def c_full(shape, v, dtype=None, *a, **k):
    if is_symlike(v):
        r = c_zeros(shape)
        r[...] = v
        return r
    if dtype is None and isinstance(v, (bool, int)):
        dtype = type(v)
    return create(lambda: np.full(shape, v), dtype)


def c_array(a, dtype=None, *args, **k):
    copy = k.pop("copy", True)
    if is_symlike(a) or has_sym(a):
        r = obj(a)
        if isinstance(a, np.ndarray) and copy:
            r = r.copy()
        r = r.view(SymArray) if r.ndim else (r[()] if not isinstance(a, np.ndarray) else r[()])
        nd = k.get("ndmin", 0)
        if nd and np.ndim(r) < nd:
            r = wrap(obj(r).reshape((1,) * (nd - np.ndim(r)) + np.shape(r)))
        if dtype is not None and isinstance(r, np.ndarray):
            return astype(r, dtype)
        return r
    r = np.array(strip(a), dtype=native_dtype(dtype), **k)
    if r.dtype == object:
        return r
    return floatify(r)


def c_asarray(a, dtype=None, *args, **k):
    if isinstance(a, np.ndarray) and (dtype is None or (a.dtype == object and native_dtype(dtype) in (float, np.float64))):
        return a
    return c_array(a, dtype)


def native_dtype(dt):
    if dt is F32Shim:
        return np.float32
    if dt is FloatShim or dt is object or dt is F64Shim:
        return float
    if dt is IntShim:
        return int
    return dt


def c_arange(*a, **k):
    if any(is_sym(v) for v in a):
        raise Unsupported("arange of symbolic bounds")
    if "dtype" in k:
        k["dtype"] = native_dtype(k["dtype"])
    return np.arange(*a, **k)


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (is_sym(start) or is_sym(stop)):
        return np.linspace(start, stop, num, endpoint, retstep)
    num = int(num)
    div = num - 1 if endpoint else num
    start, stop = lift(start), lift(stop)
    delta = stop - start
    r = np.empty((num,), dtype=object)
    step = delta / div if div > 0 else NAN
    for i in range(num):
        r[i] = start + delta * core.Fraction(i, div) if div > 0 else start
    if endpoint and num > 1:
        r[num - 1] = stop
    r = r.view(SymArray)
    return (r, step) if retstep else r


def c_eye(*a, **k):
    k.pop("dtype", None)
    return floatify(np.eye(*a, **k))


def c_identity(n, dtype=None, **k):
    return floatify(np.identity(n))


def c_diag(v, k=0):
    if is_symlike(v):
        return wrap(np.diag(obj(v), k)) if np.ndim(v) == 2 else _symdiag(v, k)
    return np.diag(v, k)


def _symdiag(v, k):
    n = len(v) + builtins.abs(k)
    r = c_zeros((n, n))
    for i in range(len(v)):
        r[i + builtins.max(-k, 0), i + builtins.max(k, 0)] = v[i]
    return r


def c_float(v=0.0):
    if isinstance(v, Sym):
        return v
    if isinstance(v, str):
        t = core.untoken(v)
        if t is not None:
            return core.read_token(t, "float")
        return builtins.float(v)
    if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
        return c_float(v.reshape(-1)[0])
    return builtins.float(v)


def c_int(v=0, *a):
    if isinstance(v, str) and not a:
        t = core.untoken(v)
        if t is not None:
            return core.read_token(t, "int")
    if isinstance(v, Sym):
        return core.sym_int(v)
    return builtins.int(v, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, Sym))

    def __call__(cls, v=0.0):
        return c_float(v)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(builtins.float, metaclass=_FloatMeta):
    pass


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.float64, Sym))

    def __call__(cls, v=0.0):
        if is_sym(v) or isinstance(v, str):
            return c_float(v)
        if is_symlike(v):
            return c_array(v)
        return np.float64(v)

    def __eq__(cls, o):
        return o is np.float64 or o is cls

    def __hash__(cls):
        return hash(np.float64)


class _F32Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.float32)

    def __call__(cls, v=0.0):
        if is_symlike(v):
            v = obj(v)
            return singles(v) if v.ndim else single(v[()])
        return np.float32(v)

    def __eq__(cls, o):
        return o is np.float32 or o is cls

    def __hash__(cls):
        return hash(np.float32)


class F32Shim(np.float32, metaclass=_F32Meta):
    pass


class F64Shim(np.float64, metaclass=_F64Meta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, Sym) and core.is_int_sym(o))

    def __call__(cls, v=0, *a):
        return c_int(v, *a)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(builtins.int, metaclass=_IntMeta):
    pass


# ------------------------------------------------------------- module proxies
class LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if n in ("inv", "solve", "det", "norm"):
            def g(*a, **k):
                if args_need(a, k):
                    return AF[n](*a, **k)
                return f(*[strip(x) for x in a], **k)
            return g
        return f


class MathProxy(types.ModuleType):
    """math, and np.math"""
    MAP = {"sqrt": m_sqrt, "fabs": lambda a: s_abs(a) if is_sym(a) else math.fabs(a),
           "pow": s_pow, "isnan": s_isnan, "isinf": s_isinf, "isfinite": s_isfinite, "copysign": s_copysign, "hypot": s_hypot}

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        h = self.MAP.get(n)

        def g(*a, **k):
            if any(is_sym(x) for x in a):
                if h is not None:
                    return h(*a, **k)
                if n in TRIG or n in ("atan",):
                    return s_trig({"atan": "arctan"}.get(n, n))(*a)
                if n == "isclose":
                    return np_allclose(a[0], a[1], k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0))
                if n == "fsum":
                    return reduce_list(s_add, list(a[0]), "add")
                raise Unsupported("math.%s of a symbolic value" % n)
            if n == "dist" and args_need(a, {}):
                return np_norm([s_sub(u, v) for u, v in zip(*a)])
            if n in ("fsum", "prod") and a and is_symlike(a[0]):
                return reduce_list(s_mul if n == "prod" else s_add, list(a[0]), "add")
            return f(*a, **k)
        return g


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(fromiter=lambda it, dtype=None, count=-1, **k: c_array(list(it) if count < 0 else list(itertools.islice(it, count)), dtype), zeros=c_zeros, ones=c_ones, empty=c_empty, full=c_full, array=c_array, asarray=c_asarray,
                 asanyarray=c_asarray, ascontiguousarray=c_asarray, asfarray=c_asarray,
                 arange=c_arange, linspace=c_linspace, eye=c_eye, identity=c_identity, diag=c_diag,
                 copy=np_copy, linalg=LinalgProxy(), math=MathProxy(),
                 zeros_like=np_fill_like(0.0), ones_like=np_fill_like(1.0), empty_like=np_fill_like(NAN), full_like=np_full_like)
        self._ext = {}

    def __getattr__(self, n):
        if n == "__path__":
            return np.__path__
        if n in ("float64", "double", "float_"):
            return F64Shim
        if n in ("float32", "single"):
            return F32Shim
        if n == "finfo":
            return lambda d=float: np.finfo(native_dtype(d) if not isinstance(d, np.dtype) or d != object else float)
        if n == "vectorize":
            return np_vectorize
        if n == "frompyfunc":
            return lambda f, nin, nout, **k: np_vectorize(f)
        if n == "issubdtype":
            return AF["issubdtype"]
        if n in self._ext:
            return self._ext[n]
        f = getattr(np, n)
        if isinstance(f, np.ufunc):
            return UfuncProxy(f)
        if isinstance(f, types.ModuleType) or isinstance(f, type) or not callable(f):
            return f
        return FuncProxy(f)


class UfuncProxy:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if any(is_symlike(x) for x in a) or is_symlike(k.get("out")):
            if "out" in k and not isinstance(k["out"], tuple):
                k["out"] = (k["out"],)
            if len(a) > self.f.nin:
                k["out"] = tuple(a[self.f.nin:])
                a = a[:self.f.nin]
            return dispatch_ufunc(self.f, "__call__", a, k)
        return self.f(*a, **k)

    def __getattr__(self, n):
        g = getattr(self.f, n)
        if n in ("reduce", "accumulate", "outer", "at"):
            def m(*a, **k):
                if any(is_symlike(x) for x in a):
                    return dispatch_ufunc(self.f, n, a, k)
                return g(*a, **k)
            return m
        return g


class FuncProxy:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")

    def __call__(self, *a, **k):
        if args_need(a, k):
            h = AF.get(self.__name__)
            if h is not None:
                return h(*a, **k)
            return rewrap(self.f(*[strip(x) for x in a], **{q: strip(v) for q, v in k.items()}))
        r = self.f(*a, **k)
        return floatify(r) if isinstance(r, np.ndarray) and self.__name__ in ("tile", "repeat") else r

    def __getattr__(self, n):
        return getattr(self.f, n)


class IndexTrickProxy:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        items = k if isinstance(k, tuple) else (k,)
        if any(is_symlike(x) for x in items):
            return wrap(self.t[tuple(obj(x) if not isinstance(x, (slice, str)) else x for x in items)])
        return floatify(self.t[k])


# ------------------------------------------------------------- text files
def _vfs():
    from . import loader
    return loader.LOADER.vfs


def _row_fmt(fmt, ncol, delimiter):
    """List of literal pieces and conversion specs of one savetxt row."""
    if isinstance(fmt, (list, tuple)):
        fmt = delimiter.join(fmt)
    elif fmt.count("%") == 1:
        fmt = delimiter.join([fmt] * ncol)
    return fmt


def str_mod(fmt, args):
    """fmt % args with symbolic numbers kept as tokens."""
    if not isinstance(fmt, str):
        return fmt % args
    vals = args if isinstance(args, tuple) else (args,)
    if not any(is_sym(v) for v in vals):
        return fmt % args
    out, vals, pos = [], list(vals), 0
    for m in re.finditer(r"%(%|([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z]))", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        v = vals.pop(0)
        kind = m.group(5)
        if not is_sym(v):
            out.append(m.group(0) % (v,))
        elif kind in "eEfFgG":
            out.append(core.token(v, ".%s%s" % (m.group(4) or "6", kind)))
        elif kind in "sr":
            out.append(core.token(v, ""))
        elif kind in "di" and core.is_int_sym(v):
            out.append(core.token(v, "d"))
        else:
            raise Unsupported("formatting %r" % m.group(0))
    if vals:
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out) + fmt[pos:]


def c_repr(v):
    return str(v) if isinstance(v, Sym) else repr(v)


def c_savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    v = _vfs()
    if v is None:
        return np.savetxt(fname, to_native(X), fmt, delimiter, newline, header, footer, comments, encoding)
    own = not hasattr(fname, "write")
    f = v.open(fname, "w") if own else fname
    X = np.asarray(obj(X) if is_symlike(X) else X)
    if X.ndim == 0 or X.ndim > 2:
        raise ValueError("Expected 1D or 2D array, got %dD array instead" % X.ndim)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    row_fmt = _row_fmt(fmt, X.shape[1], delimiter)
    n = len(re.findall(r"%[^%]", row_fmt))
    if n != X.shape[1]:
        raise ValueError("fmt has wrong number of %% formats:  %s" % (fmt,))
    if header:
        f.write(comments + header.replace("\n", "\n" + comments) + newline)
    for row in X:
        f.write(str_mod(row_fmt, tuple(row)) + newline)
    if footer:
        f.write(comments + footer.replace("\n", "\n" + comments) + newline)
    if own:
        f.close()


def _read_rows(fname, comments, delimiter, skip, max_rows=None):
    v = _vfs()
    own = not hasattr(fname, "read") and isinstance(fname, (str, os.PathLike))
    f = v.open(fname, "r") if own else fname
    lines = list(f)[skip:]
    rows = []
    for line in lines:
        if comments:
            for c in ([comments] if isinstance(comments, str) else comments):
                line = line.split(c, 1)[0]
        line = line.strip("\r\n")
        if not line.strip():
            continue
        rows.append([t.strip() for t in line.split(delimiter)])
        if max_rows is not None and len(rows) >= max_rows:
            break
    return rows


def c_loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0,
              encoding="bytes", max_rows=None, **k):
    if _vfs() is None:
        return np.loadtxt(fname, native_dtype(dtype), comments, delimiter, converters, skiprows, usecols, unpack, ndmin, encoding, max_rows, **k)
    if converters is not None or k:
        raise Unsupported("loadtxt options")
    dt = np.dtype(native_dtype(dtype))
    conv = c_int if dt.kind in "iu" else (lambda t: single(c_float(t))) if low_precision(dt) else c_float
    rows = _read_rows(fname, comments, delimiter, skiprows, max_rows)
    return _table(rows, conv, usecols, unpack, ndmin)


def c_genfromtxt(fname, dtype=float, comments="#", delimiter=None, skip_header=0, usecols=None, unpack=False, max_rows=None, **k):
    if _vfs() is None:
        return np.genfromtxt(fname, dtype=native_dtype(dtype), comments=comments, delimiter=delimiter, skip_header=skip_header,
                             usecols=usecols, unpack=unpack, max_rows=max_rows, **k)
    if k:
        raise Unsupported("genfromtxt options")
    rows = _read_rows(fname, comments, delimiter, skip_header, max_rows)
    low = dtype is not None and low_precision(np.dtype(native_dtype(dtype)))
    return _table(rows, (lambda t: single(c_float(t))) if low else c_float, usecols, unpack, 0)


def _table(rows, conv, usecols, unpack, ndmin):
    if isinstance(usecols, int):
        usecols = (usecols,)
    if rows and len(set(len(r) for r in rows)) > 1 and usecols is None:
        raise ValueError("the number of columns changed")
    if usecols is not None:
        rows = [[r[int(c)] for c in usecols] for r in rows]
    A = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, r in enumerate(rows):
        for j, t in enumerate(r):
            A[i, j] = conv(t)
    A = A.view(SymArray)
    if A.ndim > ndmin:
        A = A.squeeze() if ndmin == 0 else A
    if unpack:
        A = A.T
    return A


NP = NpProxy()
NP._ext.update(savetxt=c_savetxt, loadtxt=c_loadtxt, genfromtxt=c_genfromtxt)
NP._ext["c_"] = IndexTrickProxy(np.c_)
NP._ext["r_"] = IndexTrickProxy(np.r_)
MATH = MathProxy()


# ----------------------------------------------------------- polynomial module
class LegProxy(types.ModuleType):
    """numpy.polynomial.legendre with symbolic coefficients/data where needed."""

    def __init__(self):
        super().__init__("numpy.polynomial.legendre")

    def __getattr__(self, n):
        import numpy.polynomial.legendre as leg
        f = getattr(leg, n)
        if n == "legfit":
            def legfit(x, y, deg, *a, **k):
                if not is_symlike(y):
                    return f(x, y, deg, *a, **k)
                yy = obj(y)
                M = f(to_native(x), np.eye(len(yy)), deg, *a, **k)
                return np_dot(M, yy)
            return legfit
        if n == "legval":
            def legval(x, c, tensor=True):
                if is_symlike(x) or is_symlike(c):
                    if not really_sym(x) and not really_sym(c):
                        return floatify(np.asarray(f(plain(x), plain(c), tensor=tensor)))[()]
                    c = obj(c)
                    if c.ndim > 1:
                        nx = obj(x).ndim
                        if tensor and nx:
                            c = c.reshape(c.shape + (1,) * nx)
                        return leg_eval(x, [wrap(v) for v in c])
                    return leg_eval(x, c)
                return f(x, c, tensor=tensor)
            return legval
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            if args_need(a, k):
                if not any(really_sym(x) for x in a):
                    r = f(*[plain(x) for x in a], **k)
                    return tuple(floatify(v) for v in r) if isinstance(r, tuple) else floatify(r)
                return rewrap(f(*[strip(x) for x in a], **k))
            return f(*a, **k)
        return g


def leg_eval(x, c):
    """Clenshaw, the algorithm of numpy.polynomial.legendre.legval"""
    c = list(c) if isinstance(c, list) else list(obj(c))
    if len(c) == 1:
        c0, c1 = c[0], 0.0
    elif len(c) == 2:
        c0, c1 = c
    else:
        nd = len(c)
        c0, c1 = c[-2], c[-1]
        for i in range(3, len(c) + 1):
            tmp = c0
            nd -= 1
            c0 = elementwise("subtract", [c[-i], elementwise("divide", [elementwise("multiply", [c1, nd - 1]), nd])])
            c1 = elementwise("add", [tmp, elementwise("divide", [elementwise("multiply", [elementwise("multiply", [c1, x]), 2 * nd - 1]), nd])])
    return elementwise("add", [c0, elementwise("multiply", [c1, x])])


LEG = LegProxy()
