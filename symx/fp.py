"""Bit-precise IEEE-754 double execution: the real code runs on z3 FloatingPoint terms."""
import math
import time
import traceback
import types

import numpy as np
import z3

from . import loader as loader_mod
from .core import Infeasible, Inconclusive, Skip, Stats, Unsupported
from .harness import BaseH, resolve

RNE = z3.RNE()
D = z3.Float64()
S = None


def lift(x):
    if isinstance(x, FP):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.FPVal(float(x), D)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return z3.fpNaN(D)
        if math.isinf(x):
            return z3.fpPlusInfinity(D) if x > 0 else z3.fpMinusInfinity(D)
        return z3.FPVal(x, D)
    if isinstance(x, np.ndarray) and x.size == 1:
        return lift(x.reshape(-1)[0])
    return None


def binop(f):
    def op(self, o):
        o = lift(o)
        return NotImplemented if o is None else FP(f(self.z, o))

    def rop(self, o):
        o = lift(o)
        return NotImplemented if o is None else FP(f(o, self.z))
    return op, rop


def cmpop(f):
    def op(self, o):
        o = lift(o)
        return NotImplemented if o is None else FB(f(self.z, o))
    return op


class FP:
    __array_ufunc__ = None
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    __add__, __radd__ = binop(lambda a, b: z3.fpAdd(RNE, a, b))
    __sub__, __rsub__ = binop(lambda a, b: z3.fpSub(RNE, a, b))
    __mul__, __rmul__ = binop(lambda a, b: z3.fpMul(RNE, a, b))
    __truediv__, __rtruediv__ = binop(lambda a, b: z3.fpDiv(RNE, a, b))
    __lt__ = cmpop(z3.fpLT)
    __le__ = cmpop(z3.fpLEQ)
    __gt__ = cmpop(z3.fpGT)
    __ge__ = cmpop(z3.fpGEQ)
    __eq__ = cmpop(z3.fpEQ)
    __ne__ = cmpop(lambda a, b: z3.Not(z3.fpEQ(a, b)))
    __hash__ = object.__hash__

    def __neg__(self):
        return FP(z3.fpNeg(self.z))

    def __pos__(self):
        return self

    def __abs__(self):
        return FP(z3.fpAbs(self.z))

    def __pow__(self, n):
        if isinstance(n, int) and 0 < n < 4:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        return NotImplemented

    def __bool__(self):
        return bool(self != 0.0)

    def __format__(self, spec):
        return "<double>"

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic double")

    def copy(self):
        return self

    def item(self):
        return self


class FB:
    __array_ufunc__ = None
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return S.decide(self.z)

    def __and__(self, o):
        return FB(z3.And(self.z, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return FB(z3.Or(self.z, bz(o)))
    __ror__ = __or__

    def __invert__(self):
        return FB(z3.Not(self.z))

    def any(self):
        return self

    def all(self):
        return self

    def __eq__(self, o):
        return FB(self.z == bz(o))
    __hash__ = object.__hash__


def bz(o):
    return o.z if isinstance(o, FB) else z3.BoolVal(bool(o))


def isnan(x):
    return FB(z3.fpIsNaN(lift(x)))


def isinf(x):
    return FB(z3.fpIsInf(lift(x)))


def minimum(a, b):
    a, b = lift(a), lift(b)
    return FP(z3.If(z3.Or(z3.fpIsNaN(a), z3.fpLT(a, b)), a, b))


def maximum(a, b):
    a, b = lift(a), lift(b)
    return FP(z3.If(z3.Or(z3.fpIsNaN(a), z3.fpGT(a, b)), a, b))


def fmin(a, b):
    a, b = lift(a), lift(b)
    return FP(z3.If(z3.Or(z3.fpIsNaN(b), z3.fpLT(a, b)), a, b))


MAP = {
    "isnan": isnan, "isinf": isinf, "isfinite": lambda x: FB(z3.Not(z3.Or(z3.fpIsNaN(lift(x)), z3.fpIsInf(lift(x))))),
    "fabs": lambda x: abs(x), "abs": lambda x: abs(x), "absolute": lambda x: abs(x),
    "minimum": minimum, "maximum": maximum, "fmin": fmin,
    "min": lambda *a, **k: seq(minimum, a), "max": lambda *a, **k: seq(maximum, a), "amin": lambda *a, **k: seq(minimum, a), "amax": lambda *a, **k: seq(maximum, a),
    "sqrt": lambda x: FP(z3.fpSqrt(RNE, lift(x))), "float64": lambda x: x, "asarray": lambda x, *a, **k: x, "array": lambda x, *a, **k: x,
    "any": lambda x, *a, **k: x, "all": lambda x, *a, **k: x, "logical_or": lambda a, b: FB(z3.Or(bz(a), bz(b))),
    "logical_and": lambda a, b: FB(z3.And(bz(a), bz(b))), "logical_not": lambda a: FB(z3.Not(bz(a))), "squeeze": lambda x: x,
    "copy": lambda x: x, "less": lambda a, b: FB(z3.fpLT(lift(a), lift(b))), "greater": lambda a, b: FB(z3.fpGT(lift(a), lift(b))),
    "multiply": lambda a, b: FP(lift(a)) * b, "divide": lambda a, b: FP(lift(a)) / b, "add": lambda a, b: FP(lift(a)) + b,
    "subtract": lambda a, b: FP(lift(a)) - b, "signbit": lambda a: FB(z3.fpIsNegative(lift(a))),
    "where": lambda c, a, b: FP(z3.If(bz(c), lift(a), lift(b))),
}


def seq(f, a):
    v = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a)
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


def has_fp(a):
    if isinstance(a, (FP, FB)):
        return True
    if isinstance(a, (list, tuple)):
        return any(has_fp(x) for x in a)
    return False


class FpNumpy(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        f = getattr(self._real, n)
        if isinstance(f, types.ModuleType):
            return FpNumpy(f)
        if isinstance(f, type) and n not in ("float64",):
            return f
        if not callable(f):
            return f

        def g(*a, **k):
            if any(has_fp(x) for x in a):
                if n not in MAP:
                    raise Unsupported("%s of a symbolic double" % n)
                return MAP[n](*a, **k)
            return f(*a, **k)
        return g


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, FP))

    def __call__(cls, v=0.0):
        return v if isinstance(v, FP) else float(v)


class FloatShim(float, metaclass=_FloatMeta):
    pass


class FpState:
    def __init__(self, prefix, stats, timeout_ms, deadline):
        self.prefix, self.stats, self.timeout, self.deadline = prefix, stats, timeout_ms, deadline
        self.decisions, self.alternatives, self.cons = [], [], []

    def check(self, extra):
        s = z3.SolverFor("QF_FP")
        s.set("timeout", self.timeout)
        s.add(*self.cons, *extra)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r, (s.model() if r == z3.sat else None)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if time.time() > self.deadline:
                raise Inconclusive("time budget exhausted")
            rt, _ = self.check([c])
            rf, _ = self.check([z3.Not(c)])
            if rt == z3.unsat and rf == z3.unsat:
                raise Infeasible()
            if rt == z3.unsat:
                v = False
            elif rf == z3.unsat:
                v = True
            else:
                v = True
                self.alternatives.append(self.decisions + [False])
                self.stats.decisions += 1
        self.decisions.append(v)
        self.cons.append(c if v else z3.Not(c))
        return v


class FpH(BaseH):
    symbolic = True
    fp = True

    def __init__(self, st):
        self.st = st
        self.loader = loader_mod.LOADER
        self.loader.fresh()
        self.loader.np_mod = FpNumpy(np)
        self.loader.math_mod = FpNumpy(math)
        self.loader.float_cls = FloatShim
        self.loader.int_cls = int
        self.names, self.pending = {}, []

    def mod(self, name):
        return self.loader.load(name)

    def double(self, name):
        z = z3.FP(name, D)
        self.names[name] = z
        return FP(z)

    def assume(self, c):
        self.st.cons.append(bz(c))

    def isnan(self, x):
        return isnan(x)

    def AND(self, *c):
        return FB(z3.And([bz(x) for x in c]))

    def OR(self, *c):
        return FB(z3.Or([bz(x) for x in c]))

    def NOT(self, c):
        return FB(z3.Not(bz(c)))

    def same(self, a, b):
        """equal as doubles (NaN equals NaN, zeros equal)"""
        a, b = lift(a), lift(b)
        return FB(z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b))))

    def true(self, label, c):
        self.st.stats.obligations += 1
        self.pending.append((label, z3.Not(bz(c))))

    def true_now(self, c):
        return bool(c)

    def skip(self, why):
        raise Skip(why)


def fpval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_fp(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        return float(np.uint64(b).view(np.float64))
    return 0.0


def explore(inst, seed=1, deadline=None):
    global S
    fn = resolve(inst["body"])
    o = inst["opts"]
    t0 = time.time()
    deadline = min(deadline or 1e18, t0 + o.get("budget", 200))
    stats = Stats()
    res = {"name": inst["name"], "candidates": [], "problems": [], "witness": None, "codes": None}
    work = [[]]
    while work and len(res["candidates"]) < 6:
        if time.time() > deadline or stats.paths >= o.get("max_paths", 2000):
            res["problems"].append("budget of the instance exhausted after %d paths" % stats.paths)
            break
        S = st = FpState(work.pop(), stats, o.get("timeout_ms", 60000), deadline)
        stats.paths += 1
        h = FpH(st)
        try:
            fn(h, **inst["params"])
        except Infeasible:
            work.extend(st.alternatives)
            continue
        except Skip as e:
            res["skipped"] = str(e)
            break
        except Unsupported as e:
            res["problems"].append("unsupported: %s" % e)
            res["where"] = ["%s:%d" % (f.filename, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-6:]]
            break
        except Inconclusive as e:
            res["problems"].append(str(e))
            break
        except (Exception, SystemExit) as e:
            stats.exc_paths += 1
            res["last_exception"] = traceback.format_exc().splitlines()[-8:]
            h.pending = [("exception %s: %s" % (type(e).__name__, e), z3.BoolVal(True))]
        work.extend(st.alternatives)
        r, m = st.check([])
        if r == z3.unsat:
            continue
        if r != z3.sat:
            res["problems"].append("feasibility of a path is unknown")
            continue
        stats.complete += 1
        if res["witness"] is None:
            res["witness"] = {"inputs": {n: fpval(m, z) for n, z in h.names.items()}, "values": [], "decisions": len(st.decisions)}
        for label, neg in h.pending:
            neg = z3.simplify(neg)
            if z3.is_false(neg):
                stats.normalised += 1
                continue
            r, m = st.check([neg])
            if r == z3.unsat:
                stats.unsat += 1
            elif r == z3.sat:
                stats.sat += 1
                res["candidates"].append({"label": label, "inputs": {n: fpval(m, z) for n, z in h.names.items()}, "source": "solver model (IEEE doubles)", "exc": None})
                break
            else:
                stats.unknown += 1
                res["problems"].append("unknown: %s" % label)
    if o.get("soft") and res["problems"] and not res["candidates"]:
        res["undecided"] = res["problems"]
        res["problems"] = []
    stats.wall = time.time() - t0
    res["stats"] = stats.as_dict()
    return res
