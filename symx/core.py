"""Symbolic real arithmetic and path exploration.

A `Sym` is a rational function over exact rationals in named generators
(inputs, roots of polynomials, uninterpreted applications, named
sub-expressions).  The code under test runs in the ordinary Python
interpreter on `Sym` operands (operator overloading, see npx.py for numpy);
every branch on a symbolic condition asks the solver which sides are feasible
and the run is repeated for each of them.  Assertions become SMT queries over
the path condition.
"""
import heapq
import decimal
import math
import re
import time
from fractions import Fraction

import numpy as np
import z3

TRIG_NP = {k: getattr(np, k) for k in ("sin", "cos", "tanh", "exp", "log", "tan", "arctan", "sinh", "cosh", "log10",
                                        "expm1", "log1p", "exp2")}
ONE = Fraction(1)
ZERO = Fraction(0)


class Control(BaseException):
    """Engine control flow; BaseException so that code under test cannot swallow it."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class Inconclusive(Control):
    pass


class Skip(Control):
    """The instance does not apply to this code (recorded, not a verdict)."""


class Found(Control):
    """A violation candidate has been found on this path."""


# --------------------------------------------------------------------- polys
# poly: dict monomial -> Fraction ; monomial: tuple of (gen index, exponent)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            e = ea + eb
            if e:
                out.append((ga, e))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(m, k):
    return tuple((g, e * k) for g, e in m)


def p_add(a, b, s=1):
    if len(b) > len(a) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        v = c * s if v is None else v + c * s
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    if c == 1:
        return a
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}


def p_mulmono(a, mono, c=ONE):
    return {mono_mul(m, mono): v * c for m, v in a.items()}


class Gen:
    __slots__ = ("idx", "name", "lo", "hi", "pos", "kind", "q", "base", "is_int", "z", "zdef", "info")

    def __init__(self, idx, name, lo, hi, kind, pos=False, q=0, base=None, is_int=False, info=None):
        self.idx, self.name, self.lo, self.hi, self.kind = idx, name, lo, hi, kind
        self.pos, self.q, self.base, self.is_int, self.info = pos, q, base, is_int, info
        self.z = z3.Int(name) if is_int else z3.Real(name)
        self.zdef = None


class Stats:
    def __init__(self):
        self.paths = self.complete = self.queries = self.decisions = 0
        self.obligations = self.normalised = self.unsat = self.sat = self.unknown = 0
        self.solver_s = 0.0
        self.witness = None
        self.exc_paths = 0
        self.pruned = 0
        self.reached = {}
        self.nonlinear = 0

    def as_dict(self):
        return dict(self.__dict__)


class Options:
    def __init__(self, **kw):
        self.max_paths = 4000
        self.timeout_ms = 20000
        self.branch_timeout_ms = 3000
        self.name_threshold = None     # name sub-expressions with more terms than this
        self.deadline = None
        self.seed = 1
        self.pool = 512
        self.max_violations = 3
        self.max_decisions = None      # bounded depth: longer paths are cut (counted as pruned)
        self.loose = 1e-6              # relative agreement asked of encoding and real code on witnesses
        self.round_roots = False       # roots of constants are taken to 40 digits instead of exactly
        self.snap = False              # idealise rounded table constants to nearby small rationals
        self.__dict__.update(kw)


class PathState:
    """Everything that belongs to one execution path."""

    def __init__(self, prefix, opts, stats):
        self.prefix = list(prefix)
        _STATE_SNAP[0] = bool(opts.snap)
        self.decisions = []
        self.alternatives = []
        self.opts = opts
        self.stats = stats
        self.gens = []
        self.inputs = {}
        self.by_name = {}
        self.roots = {}
        self.ufs = {}
        self.names = {}
        self.factors = []
        self.factor_ids = {}
        self.conds = []          # z3 expressions
        self.cond_syms = []      # (SymBool, value) for margins
        self.model = None        # last known model of the path condition
        self.tokens = []
        self.token_text = {}
        self.probes = {}
        self.cfacts = {}
        self.facts = {}          # primitive polynomial -> signs the path allows
        self.log = {}
        self.choices = {}
        self.zcache = {}
        self.lin = z3.Solver()
        self.lin.set("timeout", opts.branch_timeout_ms)
        self.nonlinear = False
        self.sat_known = True
        self.uf_sequence = []
        self.root_defs = []
        self.pool_n = opts.pool
        self.pool_vals = []          # per generator: float array over pool points
        self.pool_alive = np.ones(self.pool_n, dtype=bool)
        self.rng = np.random.default_rng(opts.seed)
        self.pool_cache = {}
        self.bounded = []            # extremes of values that a path refused to commit to

    # ------------------------------------------------------------ generators
    def new_gen(self, name, lo, hi, kind, **kw):
        base, n = name, 0
        while name in self.by_name:
            n += 1
            name = "%s#%d" % (base, n)
        g = Gen(len(self.gens), name, lo, hi, kind, **kw)
        self.gens.append(g)
        self.by_name[name] = g
        self.pool_vals.append(self.pool_init(g))
        cs = []
        if lo is not None:
            cs.append(g.z > zq(lo) if (kw.get("pos") and lo <= 0) else g.z >= zq(lo))
        elif g.pos:
            cs.append(g.z > 0)
        if hi is not None:
            cs.append(g.z <= zq(hi))
        if cs:
            self.add(z3.And(*cs) if len(cs) > 1 else cs[0])
        return g

    # --------------------------------------------------------------- pool
    def pool_init(self, g):
        n = self.pool_n
        if not n:
            return None
        with np.errstate(all="ignore"):
            if g.kind == "root":
                return np.power(self.pool_eval(g.base), 1.0 / g.q)
            if g.kind == "name":
                return self.pool_eval(g.info)
            if g.kind == "quot":
                return np.floor(self.pool_eval(g.info[0]) / float(g.info[1]))
            lo = -3.0 if g.lo is None else float(g.lo)
            hi = 3.0 if g.hi is None else float(g.hi)
            if g.lo is None and g.hi is not None:
                lo = hi - 4.0
            if g.hi is None and g.lo is not None:
                hi = lo + 4.0
            if g.kind == "uf" and g.info and g.info[0] in TRIG_NP:
                return TRIG_NP[g.info[0]](self.pool_eval(lift(g.info[1][0])))
            if g.is_int:
                return self.rng.integers(int(lo), int(hi) + 1, n).astype(float)
            v = lo + (hi - lo) * self.rng.random(n)
            # a share of points on a coarse grid so that ties are represented
            k = n // 8
            grid = np.linspace(lo, hi, 9)
            v[:k] = self.rng.choice(grid, k)
            if lo < 0 < hi:
                v[:k // 4] = 0.0
            if lo <= 0 and g.pos:
                v = np.where(v <= 0, (hi if hi > 0 else 1.0) * 0.5, v)
            # snap to dyadics so that the solver sees short rationals
            return np.round(v * 4096) / 4096 if hi - lo > 1e-2 else v

    def pool_poly(self, p):
        r = np.zeros(self.pool_n)
        for m, c in p.items():
            t = None
            for gi, e in m:
                v = self.pool_vals[gi]
                v = v if e == 1 else (v * v if e == 2 else np.power(v, float(e)))
                t = v if t is None else t * v
            r = r + (float(c) * t if t is not None else float(c))
        return r

    def pool_eval(self, x):
        with np.errstate(all="ignore"):
            r = self.pool_poly(x.num)
            for f, e in (x.den or {}).items():
                d = self.pool_cache.get(f)
                if d is None:
                    d = self.pool_cache[f] = self.pool_poly(self.factors[f])
                r = r / (d if e == 1 else d ** e)
            return r

    def pool_cond(self, c):
        """bool array over the pool, or None"""
        if not isinstance(c, SymBool):
            return np.full(self.pool_n, bool(c))
        if c.op == "cmp":
            v = self.pool_eval(c.a)
            ok = np.isfinite(v)
            with np.errstate(all="ignore"):
                r = {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": np.abs(v) < 1e-12, "!=": np.abs(v) >= 1e-12}[c.b]
            return r, ok
        if c.op == "not":
            r, ok = self._pc(c.a)
            return ~r, ok
        if c.op in ("and", "or"):
            r1, o1 = self._pc(c.a)
            r2, o2 = self._pc(c.b)
            return (r1 & r2 if c.op == "and" else r1 | r2), o1 & o2
        return None

    def _pc(self, c):
        r = self.pool_cond(c)
        if isinstance(r, tuple):
            return r
        if r is None:
            raise KeyError
        return r, np.ones(self.pool_n, dtype=bool)

    def pool_split(self, c):
        try:
            r, ok = self._pc(c)
        except KeyError:
            return None
        return r, ok

    def add(self, e):
        self.conds.append(e)
        if not self.nonlinear:
            self.lin.add(e)

    # ------------------------------------------------------------- factors
    def factor_id(self, poly):
        key = frozenset(poly.items())
        k = self.factor_ids.get(key)
        if k is None:
            k = len(self.factors)
            self.factors.append(poly)
            self.factor_ids[key] = k
        return k

    # -------------------------------------------------------------- solving
    def check(self, extra, timeout=None, want_model=False):
        """sat / unsat / unknown of path condition and extra (z3 bool list)."""
        t0 = time.time()
        self.stats.queries += 1
        tmo = timeout or self.opts.branch_timeout_ms
        if not self.nonlinear:
            s = self.lin
            s.push()
            try:
                s.set("timeout", tmo)
                for e in extra:
                    s.add(e)
                r = s.check()
                m = s.model() if r == z3.sat else None
            finally:
                s.pop()
        else:
            r, m = solve_nra(self.conds + list(extra), tmo)
        self.stats.solver_s += time.time() - t0
        return r, m

    def set_nonlinear(self):
        if not self.nonlinear:
            self.nonlinear = True
            self.stats.nonlinear += 1


def solve_nra(constraints, tmo):
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", int(tmo))
    s.add(*constraints)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, None
    if r == z3.sat:
        return r, s.model()
    return r, None


_zq_cache = {}


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    v = _zq_cache.get(c)
    if v is None:
        c = Fraction(c)
        v = z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
        if len(_zq_cache) < 200000:
            _zq_cache[c] = v
    return v


S = None  # current PathState


def state():
    return S


def set_state(s):
    global S
    S = s


# ------------------------------------------------------------ interval bounds
def gen_bounds(g):
    return g.lo, g.hi


def mono_bounds(m):
    lo, hi = ONE, ONE
    for gi, e in m:
        g = S.gens[gi]
        l, h = g.lo, g.hi
        if l is None or h is None:
            return None
        l, h = Fraction(l), Fraction(h)
        if e < 0:
            if l <= 0:
                return None
            l, h = 1 / h, 1 / l
            e = -e
        if e != 1:
            if e % 2 == 0 and l < 0:
                a = max(abs(l), abs(h)) ** e
                b = ZERO if h >= 0 else min(abs(l), abs(h)) ** e
                l, h = b, a
            else:
                l, h = l ** e, h ** e
        c = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(c), max(c)
    return lo, hi


def poly_bounds(p):
    lo = hi = ZERO
    for m, c in p.items():
        b = mono_bounds(m)
        if b is None:
            return None
        if c > 0:
            lo += c * b[0]
            hi += c * b[1]
        else:
            lo += c * b[1]
            hi += c * b[0]
    return lo, hi


SIGN_TERMS = 60


def quick_sign(p):
    """'+', '-', '0' or None from interval / coefficient reasoning only."""
    if not p:
        return "0"
    sg = None
    for m, c in p.items():
        s = 1 if c > 0 else -1
        for gi, e in m:
            if not S.gens[gi].pos:
                if e % 2:
                    sg = 0
                    break
                # even power of a possibly-zero generator: non-strict
                sg = 0
                break
        if sg == 0:
            break
        if sg is None:
            sg = s
        elif sg != s:
            sg = 0
            break
    if sg in (1, -1):
        return "+" if sg == 1 else "-"
    b = poly_bounds(p) if len(p) <= SIGN_TERMS else None
    if b:
        if b[0] > 0:
            return "+"
        if b[1] < 0:
            return "-"
    return None


# ------------------------------------------------------------------ rooting
def reduce_poly(p):
    """Apply r**q -> base for root generators; returns (poly, den dict)."""
    if not S.roots:
        return p, None
    need = False
    for m in p:
        for gi, e in m:
            g = S.gens[gi]
            if g.kind == "root" and (e >= g.q or e < 0):
                need = True
                break
        if need:
            break
    if not need:
        return p, None
    acc = None
    for m, c in p.items():
        t = Sym({(): c}, None)
        for gi, e in m:
            g = S.gens[gi]
            if g.kind == "root" and (e >= g.q or e < 0):
                k, e2 = divmod(e, g.q)
                if e2:
                    t = Sym(p_mulmono(t.num, ((gi, e2),)), t.den)
                t = t * (g.base ** k)
            else:
                t = Sym(p_mulmono(t.num, ((gi, e),)), t.den)
        acc = t if acc is None else acc + t
    return acc.num, acc.den


def content_split(p):
    """p = c * mono * prim with prim's monomial content removed over positive
    generators and leading coefficient 1.  Returns c, mono, prim."""
    monos = list(p)
    if len(monos) == 1:
        m = monos[0]
        mono = tuple((g, e) for g, e in m if S.gens[g].pos)
        rest = tuple((g, e) for g, e in m if not S.gens[g].pos)
        return p[m], mono, ({rest: ONE} if rest else None)
    mins = {}
    first = True
    for m in monos:
        d = dict(m)
        if first:
            mins = {g: e for g, e in d.items() if S.gens[g].pos}
            first = False
        else:
            for g in list(mins):
                e = d.get(g, 0)
                if e < mins[g]:
                    mins[g] = e
            for g, e in d.items():
                if g not in mins and e < 0 and S.gens[g].pos:
                    mins[g] = e
    # generators with negative exponent appearing later than first monomial
    for m in monos:
        d = dict(m)
        for g in list(mins):
            e = d.get(g, 0)
            if e < mins[g]:
                mins[g] = e
    mono = tuple(sorted((g, e) for g, e in mins.items() if e))
    inv = mono_pow(mono, -1)
    q = p_mulmono(p, inv) if mono else p
    lead = max(q)
    c = q[lead]
    q = {m: v / c for m, v in q.items()}
    return c, mono, q


_KEYS = {}


def mono_key(m):
    """Sort key; smallest first = lexicographically largest monomial."""
    k = _KEYS.get(m)
    if k is None:
        if len(_KEYS) > 400000:
            _KEYS.clear()
        k = _KEYS[m] = tuple([(-1, g, -e) if e > 0 else (1, -g, -e) for g, e in m] + [(0, 0, 0)])
    return k


def probe_val(i):
    """A fixed generic value per generator index (for numeric divisibility probes)."""
    return 0.6 + ((i * 0.6180339887498949 + 0.137) % 1.0)


def probe_eval(p, over):
    """(value, sum of magnitudes) of a polynomial at the probe point."""
    t = a = 0.0
    cache = {}
    for m, c in p.items():
        v = float(c)
        for ge in m:
            w = cache.get(ge)
            if w is None:
                g, e = ge
                w = cache[ge] = (over[g] if g in over else probe_val(g)) ** e
            v = v * w
        t += v
        a += abs(v)
    return t, a


def probe_root(f):
    """A numeric zero of f: {generator: value} overriding one probe value, or None."""
    key = id(f)
    hit = S.probes.get(key)
    if hit is not None and hit[0] is f:
        return hit[1]
    best = None
    degs = {}
    for m in f:
        for g, e in m:
            lo, hi = degs.get(g, (0, 0))
            degs[g] = (min(lo, e), max(hi, e))
    for g, (lo, hi) in sorted(degs.items(), key=lambda kv: kv[1][1] - kv[1][0]):
        if hi - lo == 0 or hi - lo > 12:
            continue
        co = [0.0] * (hi - lo + 1)
        for m, c in f.items():
            v, ee = float(c), 0
            for gi, e in m:
                if gi == g:
                    ee = e
                else:
                    v *= probe_val(gi) ** e
            co[ee - lo] += v
        try:
            r = np.roots(co[::-1])
        except Exception:
            continue
        r = [complex(x) for x in r if 1e-3 < abs(x) < 1e3]
        if r:
            x = min(r, key=lambda z: abs(abs(z) - 1))
            best = {g: x if abs(x.imag) > 1e-12 else x.real}
            v, a = probe_eval(f, best)
            if abs(v) <= 1e-11 * a:
                break
            best = None
    S.probes[key] = (f, best)
    return best


def exact_div(p, f):
    """p / f as a (Laurent) polynomial or None."""
    if len(p) < len(f):
        return None
    if len(p) > 6:
        z = probe_root(f)
        if z is not None:
            try:
                v, a = probe_eval(p, z)
                if abs(v) > 1e-7 * a:
                    return None
            except OverflowError:
                pass
    lf = min(f, key=mono_key)
    cf = f[lf]
    inv = mono_pow(lf, -1)
    fi = [(m, v) for m, v in f.items() if m != lf]
    q = {}
    r = dict(p)
    heap = [(mono_key(m), m) for m in r]
    heapq.heapify(heap)
    steps = 0
    limit = 4 * len(p) + 50
    gens = S.gens
    while r:
        while True:
            lm = heapq.heappop(heap)[1]
            if lm in r:
                break
        t = mono_mul(lm, inv)
        for g, e in t:
            if e < 0 and not gens[g].pos:
                return None
        c = r.pop(lm) / cf
        if t in q:
            return None
        q[t] = c
        for m, v in fi:
            mm = mono_mul(m, t)
            old = r.get(mm)
            if old is None:
                r[mm] = -v * c
                heapq.heappush(heap, (mono_key(mm), mm))
            else:
                nv = old - v * c
                if nv:
                    r[mm] = nv
                else:
                    del r[mm]
        steps += 1
        if steps > limit:
            return None
    return q


class Sym:
    """num / prod(factors[fid] ** exp)."""
    __slots__ = ("num", "den", "_z")
    __array_priority__ = 10000.0

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or None
        self._z = None

    # ---- construction helpers
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Sym({(): c} if c else {}, None)

    def is_const(self):
        if self.den:
            return False
        n = self.num
        return not n or (len(n) == 1 and () in n)

    def const_value(self):
        return self.num.get((), ZERO)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, float):
            return o if o is NotImplemented else o
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return finish(p_add(self.num, o.num), self.den)
        d1, d2 = self.den or {}, o.den or {}
        den = dict(d1)
        for f, e in d2.items():
            if den.get(f, 0) < e:
                den[f] = e
        n1, n2 = self.num, o.num
        for f, e in den.items():
            k = e - d1.get(f, 0)
            for _ in range(k):
                n1 = raw_mul(n1, S.factors[f])
            k = e - d2.get(f, 0)
            for _ in range(k):
                n2 = raw_mul(n2, S.factors[f])
        s = p_add(n1, n2)
        s, extra = reduce_poly(s)
        if extra:
            return Sym(s, extra) / Sym(*den_poly(den))
        return finish(s, den)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return mul_special(self, o)
        if not o.num or not self.num:
            return Sym({}, None)
        if o.is_const():
            return Sym(p_scale(self.num, o.const_value()), self.den)
        if self.is_const():
            return Sym(p_scale(o.num, self.const_value()), o.den)
        den = self.den
        if o.den:
            if den:
                den = dict(den)
                for f, e in o.den.items():
                    den[f] = den.get(f, 0) + e
            else:
                den = o.den
        n1, n2 = self.num, o.num
        # cross-cancel before multiplying
        if den:
            n1, n2, den = cancel2(n1, n2, dict(den))
        p = raw_mul(n1, n2)
        p, extra = reduce_poly(p)
        r = finish(p, den)
        if extra:
            r = r * inv_den(extra)
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if math.isinf(o):
                return Sym({}, None)
            return o
        return self * reciprocal(o, self)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return div_special(o, self)
        return o * reciprocal(self, o)

    def __pow__(self, e):
        return sym_pow(self, e)

    def __rpow__(self, b):
        if self.is_const():
            return lift(b) ** self.const_value()
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return sym_abs(self)

    def __floordiv__(self, o):
        return sym_divmod(self, o)[0]

    def __mod__(self, o):
        return sym_divmod(self, o)[1]

    def __divmod__(self, o):
        return sym_divmod(self, o)

    # ---- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return op == "!="
            r = {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}
            return r[op]
        d = self + (-o)
        if d.is_const():
            c = d.const_value()
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        return SymBool("cmp", d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.const_value())
        return hash(frozenset(self.num.items()))

    def __bool__(self):
        if self.is_const():
            return self.const_value() != 0
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic value outside the instrumented modules")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise Unsupported("symbolic index")

    def __round__(self, n=None):
        return sym_round(self, n)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return sym_ceil(self)

    def __trunc__(self):
        return sym_trunc(self)

    def __repr__(self):
        return "<Sym %s>" % self.show()

    def show(self, limit=6):
        out = []
        for m, c in list(self.num.items())[:limit]:
            out.append("%s%s" % (float(c), "".join("*%s%s" % (S.gens[g].name, "" if e == 1 else "^%s" % e) for g, e in m)))
        s = " + ".join(out) or "0"
        if len(self.num) > limit:
            s += " + ...(%d terms)" % len(self.num)
        if self.den:
            s = "(%s)/<den %d>" % (s, len(self.den))
        return s

    def __format__(self, spec):
        if self.is_const():
            v = self.const_value()
            if spec.endswith("d"):
                return format(int(v), spec)
            return format(float(v), spec)
        return token(self, spec)

    def __str__(self):
        return self.__format__("")

    # numpy object-loop fallbacks and attribute access used on scalars
    def sqrt(self):
        return sym_sqrt(self)

    def fabs(self):
        return sym_abs(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(object)

    def item(self):
        return self

    def copy(self):
        return self

    # methods a numpy scalar has
    def sum(self, *a, **k):
        return self

    prod = mean = max = min = squeeze = tolist = ravel = conj = sum

    def astype(self, dtype, *a, **k):
        from . import npx
        dtype = npx.native_dtype(dtype)
        kind = np.dtype(dtype)
        return npx.c_int(self) if kind.kind in "iu" else npx.truth(self) if kind.kind == "b" else npx.single(self) if npx.low_precision(kind) else self

    def dot(self, o):
        return self * o

    def clip(self, a_min=None, a_max=None, min=None, max=None, **k):
        from . import npx
        return npx.np_clip(self, a_min if min is None else min, a_max if max is None else max)

    def round(self, decimals=0, **k):
        return sym_round(self, decimals)

    def is_integer(self):
        if self.is_const():
            return self.const_value().denominator == 1
        raise Unsupported("is_integer of a symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npx
        return npx.dispatch_ufunc(ufunc, method, inputs, kw)

    # ---- z3
    def z(self):
        """z3 term (num, den) with positive-denominator normalisation."""
        return z_ratio(self)


class RSym(Sym):
    """Value of a double computed in IEEE arithmetic under the standard model:
    every operation returns exact*(1+d) with its own |d| <= 2^-53 (equal exact results share d)."""
    __slots__ = ()


def rounded(x):
    if not isinstance(x, Sym) or x.is_const():
        return x
    key = ("rnd", canon_key(x))
    g = S.ufs.get(key)
    if g is None:
        e = Fraction(1, 2 ** 53)
        g = S.new_gen("rnd%d" % len(S.ufs), -e, e, "uf", info=("rnd", [x]))
        S.ufs[key] = g
    r = Sym.__mul__(Sym(x.num, x.den), Sym({(): ONE, ((g.idx, 1),): ONE}, None))
    return RSym(r.num, r.den)


def as_rounded(x):
    return RSym(x.num, x.den) if isinstance(x, Sym) else x


def _rop(name):
    f = getattr(Sym, name)

    def op(self, o):
        if isinstance(o, Sym):
            o = Sym(o.num, o.den)
        return rounded(f(Sym(self.num, self.den), o))
    return op


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    setattr(RSym, _n, _rop(_n))
RSym.__neg__ = lambda self: as_rounded(Sym.__neg__(self))
RSym.__hash__ = Sym.__hash__


def raw_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return p_scale(b, c)
        return {mono_mul(m, mb): c * cb for mb, cb in b.items()}
    if len(a) * len(b) > 400000:
        raise Unsupported("expression swell (%d x %d terms)" % (len(a), len(b)))
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mono_mul(ma, mb)
            v = r.get(m)
            r[m] = ca * cb if v is None else v + ca * cb
    return {m: c for m, c in r.items() if c}


def den_poly(den):
    p = {(): ONE}
    for f, e in den.items():
        for _ in range(e):
            p = raw_mul(p, S.factors[f])
    p, extra = reduce_poly(p)
    return p, extra


def inv_den(den):
    return Sym({(): ONE}, dict(den))


def cancel2(n1, n2, den):
    for f in list(den):
        fp = S.factors[f]
        while den.get(f, 0) > 0:
            q = exact_div(n1, fp) if len(n1) >= len(fp) else None
            if q is not None:
                n1 = q
            else:
                q = exact_div(n2, fp) if len(n2) >= len(fp) else None
                if q is None:
                    break
                n2 = q
            den[f] -= 1
            if not den[f]:
                del den[f]
    return n1, n2, den


def finish(num, den):
    """Cancel what can be cancelled; optionally name big results."""
    if not num:
        return Sym({}, None)
    if den:
        den = {f: e for f, e in den.items() if e}
        for f in list(den):
            fp = S.factors[f]
            if len(num) < len(fp):
                continue
            while den.get(f, 0) > 0:
                q = exact_div(num, fp)
                if q is None:
                    break
                num = q
                den[f] -= 1
                if not den[f]:
                    del den[f]
    r = Sym(num, den)
    t = S.opts.name_threshold
    if t is not None and (len(num) > t or (den and sum(den.values()) > 3)):
        return name_sym(r)
    return r


def canon_key(x):
    return (frozenset(x.num.items()), frozenset((x.den or {}).items()))


def name_sym(x):
    """Replace a large expression by a hash-consed generator t with t*den = num."""
    # normalise up to a constant factor so that scaled copies share a name
    lead = max(x.num)
    c = x.num[lead]
    y = Sym({m: v / c for m, v in x.num.items()}, x.den)
    key = canon_key(y)
    g = S.names.get(key)
    if g is None:
        b = bounds(y)
        pos = bool(b and b[0] is not None and b[0] > 0) or sign_of(y) == "+"
        g = S.new_gen("t%d" % len(S.names), None, None, "name", pos=pos, info=y)
        S.names[key] = g
        n, d = z_ratio(y)
        S.set_nonlinear()
        S.add(g.z * d == n)
    return Sym({((g.idx, 1),): c}, None)


def bounds(x):
    nb = poly_bounds(x.num)
    if nb is None:
        return None
    lo, hi = nb
    for f, e in (x.den or {}).items():
        b = poly_bounds(S.factors[f])
        if b is None or b[0] <= 0:
            return None
        l, h = b[0] ** e, b[1] ** e
        c = (lo / l, lo / h, hi / l, hi / h)
        lo, hi = min(c), max(c)
    return lo, hi


_ALL = frozenset((-1, 0, 1))
_OPS = {"<": frozenset((-1,)), "<=": frozenset((-1, 0)), ">": frozenset((1,)), ">=": frozenset((0, 1)),
        "==": frozenset((0,)), "!=": frozenset((-1, 1))}


def fact_key(p):
    """(key, sign) of a polynomial: p has the sign of the keyed polynomial times sign."""
    c, mono, prim = content_split(p)
    s = 1 if c > 0 else -1
    if prim is None:
        return None, s
    if len(prim) > 400:
        return None, 0
    return frozenset(prim.items()), s


def fact_signs(p):
    """Signs left open for p by the conditions already on the path."""
    if not S.facts or not p:
        return _ALL
    k, s = fact_key(p)
    if k is None:
        return frozenset((s,)) if s else _ALL
    f = S.facts.get(k, _ALL)
    return f if s > 0 or f is _ALL else frozenset(-x for x in f)


def record_fact(c, v):
    if not isinstance(c, SymBool):
        return
    if c.op == "not":
        record_fact(c.a, not v)
    elif (c.op == "and" and v) or (c.op == "or" and not v):
        record_fact(c.a, v)
        record_fact(c.b, v)
    elif c.op == "cmp":
        allowed = _OPS[c.b] if v else _ALL - _OPS[c.b]
        x = c.a
        neg = False
        for f, e in (x.den or {}).items():
            if e % 2 == 0:
                continue
            fs = factor_sign(S.factors[f])
            if fs is None:
                if allowed not in (_OPS["=="], _OPS["!="]):
                    return
            elif fs == "-":
                neg = not neg
        if not x.num:
            return
        k, s = fact_key(x.num)
        if k is None:
            return
        if (s < 0) != neg:
            allowed = frozenset(-t for t in allowed)
        S.facts[k] = S.facts.get(k, _ALL) & allowed


def cond_key(c):
    """Canonical key of a condition, or None."""
    if c.op == "cmp":
        x = c.a
        neg = False
        for f, e in (x.den or {}).items():
            if e % 2:
                fs = factor_sign(S.factors[f])
                if fs is None:
                    return None
                neg ^= fs == "-"
        if not x.num:
            return None
        k, s = fact_key(x.num)
        if k is None:
            return None
        al = _OPS[c.b]
        if (s < 0) != neg:
            al = frozenset(-t for t in al)
        return (k, al)
    if c.op == "not":
        if isinstance(c.a, SymBool):
            k = cond_key(c.a)
            if k is None:
                return None
            return (k[0], _ALL - k[1]) if len(k) == 2 and isinstance(k[1], frozenset) and k[0] != "not" else ("not", k)
        return None
    if not isinstance(c.a, SymBool) or not isinstance(c.b, SymBool):
        return None
    a, b = cond_key(c.a), cond_key(c.b)
    if a is None or b is None:
        return None
    return (c.op, frozenset((a, b)), 0)


def factor_sign(p):
    s = quick_sign(p)
    if s is None:
        f = fact_signs(p) - {0}
        if f == {1}:
            return "+"
        if f == {-1}:
            return "-"
    return s


def sign_set(x):
    """Signs the path leaves open for x (syntactic reasoning only)."""
    s = quick_sign(x.num)
    if s is not None:
        st = frozenset(({"+": 1, "-": -1, "0": 0}[s],))
    else:
        st = fact_signs(x.num)
        b = poly_bounds(x.num) if len(x.num) <= 40 else None
        if b:
            if b[0] >= 0:
                st = st - {-1}
            if b[1] <= 0:
                st = st - {1}
    if x.den:
        neg = False
        for f, e in x.den.items():
            if e % 2 == 0:
                continue
            fs = factor_sign(S.factors[f])
            if fs is None:
                if st == {0}:
                    continue
                return _ALL if 0 in st else _OPS["!="]
            if fs == "-":
                neg = not neg
        if neg:
            st = frozenset(-t for t in st)
    return st


def sign_of(x):
    """Syntactic sign of a Sym: '+', '-', '0' or None."""
    if S.facts:
        st = sign_set(x)
        if len(st) == 1:
            return {1: "+", -1: "-", 0: "0"}[next(iter(st))]
        return None
    s = quick_sign(x.num)
    if s in ("0", None):
        return s
    neg = s == "-"
    for f, e in (x.den or {}).items():
        fs = factor_sign(S.factors[f])
        if fs is None:
            if e % 2 == 0:
                continue
            return None
        if fs == "-" and e % 2:
            neg = not neg
    return "-" if neg else "+"


def reciprocal(x, numer=None):
    """1/x, forking on x == 0 unless the sign is syntactically known."""
    if x.is_const():
        c = x.const_value()
        if c == 0:
            return special_over_zero(numer)
        return Sym.const(1 / c)
    if 0 in sign_set(x) and not S.log.get("assume_nonzero"):
        if bool(x == 0):
            return special_over_zero(numer)
    num = x.num
    c, mono, prim = content_split(num)
    r = Sym({mono_pow(mono, -1): 1 / c}, None)
    # negative exponents of root generators are reduced
    p, extra = reduce_poly(r.num)
    r = Sym(p, extra)
    if x.den:
        p, extra = den_poly(x.den)
        r = r * Sym(p, extra)
    if prim is not None:
        fid = S.factor_id(prim)
        # sum of powers of the same generator is handled by the factor table
        den = dict(r.den or {})
        den[fid] = den.get(fid, 0) + 1
        r = finish(r.num, den)
    return r


class _Over(float):
    pass


def special_over_zero(numer):
    """x / 0 with numpy semantics, as a factor for `numer`."""
    if numer is None:
        return float("inf")
    if numer.is_const():
        c = numer.const_value()
        return float("nan") if c == 0 else float("inf")
    if bool(numer == 0):
        return float("nan")
    return float("inf")


def mul_special(x, f):
    if f != f:
        return f
    if x.is_const():
        c = x.const_value()
    else:
        if bool(x == 0):
            return float("nan")
        c = 1 if bool(x > 0) else -1
    if c == 0:
        return float("nan")
    return f if c > 0 else -f


def div_special(f, x):
    if f != f:
        return f
    return f if bool(x > 0) else -f


_STATE_SNAP = [False]
_SNAPS = {}


def snap(v):
    """The rational of denominator <= 4000 that v is the rounding of (1e-14 relative), else v itself."""
    r = _SNAPS.get(v)
    if r is None:
        r = Fraction(v)
        if abs(v) < 1e-15:
            q = ZERO
        else:
            q = r.limit_denominator(4000)
        if abs(q - r) <= Fraction(1, 10 ** 14) * max(1, abs(r)) and q.denominator <= 4000:
            r = q
        _SNAPS[v] = r
    return r


def lift(v):
    """Python/numpy scalar -> Sym; nan/inf stay floats."""
    if isinstance(v, Sym):
        return v
    if isinstance(v, bool):
        return Sym.const(int(v))
    if isinstance(v, int):
        return Sym.const(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return float(v)
        if _STATE_SNAP[0]:
            return Sym.const(snap(v))
        return Sym.const(Fraction(v))
    if isinstance(v, Fraction):
        return Sym.const(v)
    if isinstance(v, SymBool):
        return Sym.const(1 if bool(v) else 0)
    t = type(v).__module__
    if t == "numpy":
        import numpy as np
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                return lift(v.item())
            return NotImplemented
        if isinstance(v, np.generic):
            return lift(v.item())
    return NotImplemented


# -------------------------------------------------------------------- powers
def int_root(c, q):
    """exact q-th root of a non-negative Fraction or None."""
    def ir(n):
        if n in (0, 1):
            return n
        r = round(n ** (1.0 / q)) if n < 2 ** 90 else None
        if r is None:
            lo, hi = 0, 1 << (n.bit_length() // q + 1)
            while lo < hi:
                mid = (lo + hi) // 2
                if mid ** q < n:
                    lo = mid + 1
                else:
                    hi = mid
            r = lo
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** q == n:
                return k
        return None
    a, b = ir(c.numerator), ir(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def poly_sqrt(p):
    """Exact square root of a polynomial (positive leading coeff) or None."""
    if not p:
        return {}
    lead = max(p)
    if any(e % 2 for _, e in lead):
        return None
    c = p[lead]
    if c < 0:
        return None
    rc = int_root(c, 2)
    if rc is None:
        return None
    lm = tuple((g, e // 2) for g, e in lead)
    root = {lm: rc}
    r = p_add(p, raw_mul(root, root), -1)
    inv = mono_pow(lm, -1)
    for _ in range(len(p) + 5):
        if not r:
            return root
        m = max(r)
        t = mono_mul(m, inv)
        for g, e in t:
            if e < 0 and not S.gens[g].pos:
                return None
        if t in root or t > lm:
            return None
        cc = r[m] / (2 * rc)
        term = {t: cc}
        # r -= 2*root*term + term^2
        r = p_add(r, p_scale(raw_mul(root, term), Fraction(2)), -1)
        r = p_add(r, raw_mul(term, term), -1)
        root[t] = cc
        if len(r) > 4000:
            return None
    return None if r else root


def poly_pow(p, n):
    r = {(): ONE}
    for _ in range(n):
        r = raw_mul(r, p)
    return r


def poly_root(p, q):
    """Exact q-th root of a polynomial (odd q or positive root) or None."""
    if not p or len(p) > 3000:
        return None
    gs = sorted({g for m in p for g, _ in m})

    def order(m):
        d = dict(m)
        return tuple(d.get(g, 0) for g in gs)
    lead = max(p, key=order)
    if any(e % q for _, e in lead):
        return None
    # quick refusal: a q-th power takes q-th powers as values
    for k in (3, 5):
        at = {g: Fraction(k + 2 * i * k + i * i) for i, g in enumerate(gs)}
        v = Fraction(0)
        for m, c in p.items():
            for g, e in m:
                c = c * at[g] ** e
            v += c
        if v < 0 and q % 2 == 0 or v and int_root(abs(v), q) is None:
            return None
    c = p[lead]
    if c < 0:
        if q % 2 == 0:
            return None
        rc = int_root(-c, q)
        rc = -rc if rc is not None else None
    else:
        rc = int_root(c, q)
    if rc is None:
        return None
    lm = tuple((g, e // q) for g, e in lead)
    root = {lm: rc}
    dm = mono_pow(lm, -(q - 1))
    dc = q * rc ** (q - 1)
    for _ in range(60):
        r = p_add(p, poly_pow(root, q), -1)
        if not r:
            return root
        m = max(r, key=order)
        t = mono_mul(m, dm)
        if any(e < 0 and not S.gens[g].pos for g, e in t) or t in root or order(t) >= order(lm):
            return None
        root[t] = r[m] / dc
        if len(root) > 60:
            return None
    return None


def root_atom(poly, q):
    """Generator r with r**q == poly (poly > 0 on the path)."""
    base = Sym(poly, None)
    key = (canon_key(base), q)
    g = S.roots.get(key)
    if g is None:
        lo = hi = None
        b = poly_bounds(poly)
        if b and b[0] > 0:
            lo = Fraction(float(b[0]) ** (1.0 / q) * (1 - 1e-9))
            hi = Fraction(float(b[1]) ** (1.0 / q) * (1 + 1e-9))
        g = S.new_gen("r%d_%d" % (q, len(S.roots)), lo, hi, "root", pos=True, q=q, base=base)
        S.roots[key] = g
        n, d = z_ratio(base)
        S.set_nonlinear()
        S.add(zpow(g.z, q) * d == n)
    return Sym({((g.idx, 1),): ONE}, None)


def zpow(z, k):
    r = z
    for _ in range(k - 1):
        r = r * z
    return r


def root_of(x, q):
    """q-th root of a Sym known positive on the path."""
    # move denominator factors: x = num / D ; make exponents multiples of q
    num = x.num
    out = Sym.const(1)
    if x.den:
        for f, e in x.den.items():
            k = -(-e // q)          # ceil
            extra = k * q - e
            for _ in range(extra):
                num = raw_mul(num, S.factors[f])
            fs = factor_sign(S.factors[f])
            d = Sym({(): ONE}, {S.factor_id(S.factors[f]): k})
            if fs == "-" or (fs is None and q % 2 == 0 and k % 2 and not bool(Sym(S.factors[f], None) > 0)):
                d = -d
            out = out * d
        num, extra = reduce_poly(num)
        if extra:
            return out * root_of(Sym(num, extra), q)
    c, mono, prim = content_split(num)
    if c < 0 and prim is not None:
        c, prim = -c, {m: -v for m, v in prim.items()}
    # constant
    rc = int_root(c, q)
    if rc is not None:
        out = out * rc
    else:
        # split squarefull integer part only trivially; a constant root atom
        out = out * root_atom({(): c}, q)
    for g, e in mono:
        k, r = divmod(e, q)
        if k:
            out = out * Sym({((g, k),): ONE}, None)
        if r:
            gg = S.gens[g]
            if gg.kind == "root":
                nq = gg.q * q
                a = root_atom(gg.base.num, nq) if not gg.base.den else None
                if a is None:
                    raise Unsupported("root of root")
                out = out * sym_ipow(a, r)
            else:
                out = out * sym_ipow(root_atom({((g, 1),): ONE}, q), r)
    if prim is not None:
        if q == 2:
            s = poly_sqrt(prim)
            if s is None and len(prim) <= 200:
                s = poly_root(prim, 2)
            if s is not None:
                sx = Sym(s, None)
                return out * sym_abs(sx)
        else:
            s = poly_root(prim, q)
            if s is not None:
                sx = Sym(s, None)
                return out * (sx if q % 2 else sym_abs(sx))
        out = out * root_atom(prim, q)
    return out


def sym_ipow(x, n):
    if n == 0:
        return Sym.const(1)
    if n < 0:
        return reciprocal(sym_ipow(x, -n), Sym.const(1))
    r = None
    b = x
    while n:
        if n & 1:
            r = b if r is None else r * b
        n >>= 1
        if n:
            b = b * b
    return r


def sym_pow(x, e):
    if isinstance(e, Sym):
        if not e.is_const():
            raise Unsupported("symbolic exponent")
        e = e.const_value()
    elif isinstance(e, float) and (e != e or math.isinf(e)):
        raise Unsupported("non-finite exponent")
    else:
        le = lift(e)
        if le is NotImplemented:
            return NotImplemented
        e = le.const_value()
    if e.denominator != 1:
        snapped = e.limit_denominator(64)
        if abs(snapped - e) < Fraction(1, 10 ** 12):
            e = snapped
        else:
            raise Unsupported("irrational-looking exponent %s" % float(e))
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            return reciprocal(sym_ipow(x, -n), Sym.const(1))
        return sym_ipow(x, n)
    if x.is_const() and x.const_value() == 0:
        return Sym.const(0) if e > 0 else float("inf")
    if S.opts.round_roots and x.is_const() and x.const_value() > 0:
        c = x.const_value()
        with decimal.localcontext() as ctx:
            ctx.prec = 40
            c = decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)
            return Sym.const(Fraction(c ** (decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator))))
    sg = sign_of(x)
    if sg is None:
        if bool(x < 0):
            return float("nan")
        if bool(x == 0):
            return Sym.const(0) if e > 0 else float("inf")
    elif sg == "-":
        return float("nan")
    r = root_of(x, e.denominator)
    return sym_pow(r, Fraction(e.numerator))


def sym_sqrt(x):
    return sym_pow(x, Fraction(1, 2))


def sym_abs(x):
    if x.is_const():
        return Sym.const(abs(x.const_value()))
    st = sign_set(x)
    if -1 not in st:
        return x
    if 1 not in st:
        return -x
    return x if bool(x >= 0) else -x


def opaque(name, args, lo=None, hi=None, pos=False):
    """Uninterpreted application, congruent on normal forms."""
    key = (name,) + tuple(canon_key(lift(a)) for a in args)
    g = S.ufs.get(key)
    if g is None:
        g = S.new_gen("%s!%d" % (name, len(S.ufs)), lo, hi, "uf", pos=pos, info=(name, args))
        S.ufs[key] = g
    return Sym({((g.idx, 1),): ONE}, None)


_OFF = Fraction(318309886, 10 ** 18)      # keeps round numbers off the rounding boundary


def approx_key(x, digits=9):
    """Key of x with coefficients rounded: arguments that differ only by the
    rounding of the tables they were computed with are identified."""
    def r(p):
        out = []
        sc = 10 ** digits
        for m, c in p.items():
            k = math.floor((c + _OFF) * sc + Fraction(1, 2))
            if k:
                out.append((m, k))
        return frozenset(out)
    return (r(x.num), frozenset((x.den or {}).items()))


def opaque_approx(name, args, lo=None, hi=None, pos=False):
    key = (name, "approx") + tuple(approx_key(lift(a)) for a in args)
    g = S.ufs.get(key)
    if g is None:
        g = S.new_gen("%s!%d" % (name, len(S.ufs)), lo, hi, "uf", pos=pos, info=(name, args))
        S.ufs[key] = g
    return Sym({((g.idx, 1),): ONE}, None)


# ------------------------------------------------------------- z3 translation
def z_mono(m):
    k = S.zcache.get(m)
    if k is None:
        t = None
        for g, e in m:
            v = zpow(S.gens[g].z, e)
            t = v if t is None else t * v
        k = S.zcache[m] = t
    return k


def z_poly(p):
    """z3 term of p times a positive monomial clearing negative exponents.
    Returns (term, clearing monomial term or None)."""
    clear = {}
    deg = 1
    for m in p:
        d = 0
        for g, e in m:
            d += abs(e)
            if e < 0 and -e > clear.get(g, 0):
                clear[g] = -e
        deg = max(deg, d)
    if deg > 1 or clear:
        S.set_nonlinear()
    if clear:
        cm = tuple(sorted(clear.items()))
        p = p_mulmono(p, cm)
    terms = []
    for m, c in p.items():
        if not m:
            terms.append(zq(c))
        elif c == 1:
            terms.append(z_mono(m))
        else:
            terms.append(zq(c) * z_mono(m))
    t = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else zq(0))
    return t, (z_mono(cm) if clear else None)


def z_ratio(x):
    """(n, d) z3 terms with x = n/d (d not sign-normalised)."""
    n, cl = z_poly(x.num)
    d = cl if cl is not None else zq(1)
    if x.den:
        for f, e in x.den.items():
            t, c2 = z_poly(S.factors[f])
            d = d * zpow(t, e)
            if c2 is not None:
                n = n * zpow(c2, e)
    return n, d


class SymBool:
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return sb_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rxor__ = __xor__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __neg__(self):
        return -lift(self)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npx
        return npx.dispatch_ufunc(ufunc, method, inputs, kw)

    def z(self):
        if self.op == "cmp":
            return z_cmp(self.a, self.b)
        if self.op == "and":
            return z3.And(zb(self.a), zb(self.b))
        if self.op == "or":
            return z3.Or(zb(self.a), zb(self.b))
        if self.op == "not":
            return z3.Not(zb(self.a))
        if self.op == "z3":
            return self.a
        raise AssertionError(self.op)


def zb(v):
    if isinstance(v, SymBool):
        return v.z()
    return z3.BoolVal(bool(v))


def sb_not(v):
    if isinstance(v, SymBool):
        if v.op == "cmp":
            neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
            return SymBool("cmp", v.a, neg[v.b])
        if v.op == "not":
            return v.a
        return SymBool("not", v)
    return not v


def sb_and(a, b):
    if not isinstance(a, SymBool):
        return b if a else False
    if not isinstance(b, SymBool):
        return a if b else False
    return SymBool("and", a, b)


def sb_or(a, b):
    if not isinstance(a, SymBool):
        return True if a else b
    if not isinstance(b, SymBool):
        return True if b else a
    return SymBool("or", a, b)


def z_cmp(d, op):
    """z3 condition for `d op 0`, d a Sym."""
    num, flip = d.num, False
    n, cl = z_poly(num)          # clearing monomial is positive
    if op in ("==", "!="):
        return n == 0 if op == "==" else n != 0
    for f, e in (d.den or {}).items():
        if e % 2 == 0:
            continue
        s = factor_sign(S.factors[f])
        if s == "+":
            continue
        if s == "-":
            flip = not flip
            continue
        t, _ = z_poly(S.factors[f])
        n = n * t
    if flip:
        n = -n
    return {"<": n < 0, "<=": n <= 0, ">": n > 0, ">=": n >= 0}[op]


def quick_bool(c):
    """True/False if decidable syntactically, else None."""
    if not isinstance(c, SymBool):
        return bool(c)
    if c.op == "cmp":
        st = sign_set(c.a)
        ok = _OPS[c.b]
        if st <= ok:
            return True
        if not (st & ok):
            return False
        b = bounds(c.a) if c.a.den and len(c.a.num) <= 40 else None
        if b:
            if b[0] >= 0 and c.b in (">=", "<"):
                return c.b == ">="
            if b[1] <= 0 and c.b in ("<=", ">"):
                return c.b == "<="
        return None
    if c.op == "not":
        q = quick_bool(c.a)
        return None if q is None else not q
    if S.cfacts and c.op in ("and", "or"):
        k = cond_key(c)
        if k in S.cfacts:
            return S.cfacts[k]
    if c.op == "and":
        a, b = quick_bool(c.a), quick_bool(c.b)
        if a is False or b is False:
            return False
        return True if (a and b) else None
    if c.op == "or":
        a, b = quick_bool(c.a), quick_bool(c.b)
        if a or b:
            return True
        return False if (a is False and b is False) else None
    return None


def model_true(model, e):
    try:
        v = model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except z3.Z3Exception:
        pass
    return None


def decide(c):
    st = S
    q = quick_bool(c)
    if q is not None:
        return q
    st.stats.decisions += 1
    i = len(st.decisions)
    if st.opts.max_decisions and i >= st.opts.max_decisions:
        st.stats.pruned += 1
        raise Infeasible()
    e = c.z()
    if i < len(st.prefix):
        v = st.prefix[i]
        st.decisions.append(v)
        commit(c, e, v)
        return v
    if st.opts.deadline and time.time() > st.opts.deadline:
        raise Inconclusive("deadline reached while exploring paths")
    ne = z3.Not(e)
    rt = rf = None
    mt = mf = None
    split = st.pool_split(c) if st.pool_n else None
    if split is not None:
        r, ok = split
        alive = st.pool_alive & ok
        if (alive & r).any():
            rt = z3.sat
        if (alive & ~r).any():
            rf = z3.sat
    if st.model is not None and not st.nonlinear:
        mv = model_true(st.model, e)
        if mv is True:
            rt = z3.sat
        elif mv is False:
            rf = z3.sat
    if rt is None:
        rt, mt = st.check([e])
    if rf is None:
        rf, mf = st.check([ne])
    t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
    if not t_ok and not f_ok:
        raise Infeasible()
    if t_ok and f_ok:
        st.alternatives.append(st.decisions + [False])
        v = True
    else:
        v = t_ok
    st.decisions.append(v)
    commit(c, e, v)
    if v and mt is not None:
        st.model = mt
    elif (not v) and mf is not None:
        st.model = mf
    elif st.model is not None and model_true(st.model, e if v else ne) is not True:
        st.model = None
    return v


def commit(c, e, v):
    S.add(e if v else z3.Not(e))
    record_fact(c, v)
    if c.op in ("and", "or"):
        k = cond_key(c)
        if k is not None:
            S.cfacts[k] = v
    S.cond_syms.append((c, v))
    if S.pool_n:
        split = S.pool_split(c)
        if split is not None:
            r, ok = split
            S.pool_alive = S.pool_alive & ok & (r if v else ~r)


# --------------------------------------------------------------- text tokens
TOK = "8360417"


def token(x, spec=""):
    """Text standing for the printed form of a symbolic value: shaped like a number of that format,
    recognised again by its digits."""
    S.tokens.append((x, spec))
    uid = "%s%05d" % (TOK, len(S.tokens) - 1)
    m = re.match(r"([-+ 0]*)(\d*)(?:\.(\d+))?([a-zA-Z]?)$", spec or "")
    kind = m.group(4) if m else ""
    prec = int(m.group(3)) if m and m.group(3) else None
    if kind == "d" or (kind == "" and prec is None and is_int_sym(x)):
        t = uid
    elif kind in ("e", "E"):
        t = "7." + uid.ljust(6 if prec is None else prec, "0") + kind + "+00"
    elif kind in ("f", "F"):
        t = "7." + uid.ljust(6 if prec is None else prec, "0")
    else:
        t = "7." + uid + "3"
    if m and m.group(2):
        t = t.rjust(int(m.group(2)))
    S.token_text[t.strip()] = len(S.tokens) - 1
    return t


def untoken(text):
    """Sym for a string holding exactly one token (and whitespace), else None."""
    i = S.token_text.get(text.strip())
    return None if i is None else S.tokens[i]


def read_token(tok, how):
    """Value obtained by parsing the printed form of a symbolic value."""
    x, spec = tok
    spec = spec or ""
    if how == "int":
        if spec in ("", "d") or spec.endswith("d"):
            if is_int_sym(x):
                return x
        raise ValueError("invalid literal for int(): symbolic text %r" % spec)
    if spec.endswith("d"):
        return x
    digits = None
    if spec == "single":
        rel, ab = Fraction(1, 2 ** 24), ZERO
    elif spec in ("", "r", "s"):
        return x                      # shortest repr round-trips a double
    elif spec[-1] in "eE":
        digits = int(spec[:-1].split(".")[1]) + 1 if "." in spec else 7
        if digits >= 17:
            return x
        rel, ab = Fraction(1, 2) * Fraction(10) ** (1 - digits), ZERO
    elif spec[-1] in "gG":
        digits = int(spec[:-1].split(".")[1]) if "." in spec else 6
        if digits >= 17:
            return x
        rel, ab = Fraction(1, 2) * Fraction(10) ** (1 - digits), ZERO
    elif spec[-1] in "fF":
        k = int(spec[:-1].split(".")[1]) if "." in spec else 6
        rel, ab = ZERO, Fraction(1, 2) * Fraction(10) ** (-k)
    else:
        raise Unsupported("format %r" % spec)
    # rounding error symbol: |err| <= 1 in units of the last printed digit
    key = ("fmterr", canon_key(x), spec)
    g = S.ufs.get(key)
    if g is None:
        g = S.new_gen("fmt%d" % len(S.ufs), -1, 1, "uf", info=("fmt", [x]))
        S.ufs[key] = g
    err = Sym({((g.idx, 1),): ONE}, None)
    return x + err * (ab if ab else abs(x) * rel)


def is_int_sym(x):
    if x.den:
        return False
    for m, c in x.num.items():
        if c.denominator != 1:
            return False
        for g, e in m:
            if e < 0 or not S.gens[g].is_int:
                return False
    return True


def sym_divmod(x, o):
    """Floor division and remainder by a positive constant integer (fresh integer quotient)."""
    o = lift(o)
    if not isinstance(o, Sym) or not o.is_const() or o.const_value() <= 0:
        raise Unsupported("division with remainder by a symbolic value")
    k = o.const_value()
    if x.is_const():
        q = x.const_value() // k
        return Sym.const(q), Sym.const(x.const_value() - q * k)
    key = ("divmod", canon_key(x), k)
    g = S.ufs.get(key)
    if g is None:
        b = poly_bounds(x.num) if not x.den else None
        if b is None or b[0] is None or b[1] is None:
            lo = hi = None
        else:
            lo, hi = (math.floor(v / k) for v in b)
            if lo == hi:
                return Sym.const(lo), x - k * lo
            lo, hi = Fraction(lo), Fraction(hi)
        g = S.new_gen("quot!%d" % len(S.ufs), lo, hi, "quot", is_int=True, info=(x, k))
        S.ufs[key] = g
        n, d = z_ratio(x)
        S.add(z3.And(zq(k) * g.z * d <= n, n < zq(k) * (g.z + 1) * d))
    q = Sym({((g.idx, 1),): ONE}, None)
    return q, x - q * k


def sym_floor(x):
    return x if is_int_sym(x) else sym_divmod(x, 1)[0]


def sym_ceil(x):
    return -sym_floor(-x)


def sym_trunc(x):
    if is_int_sym(x):
        return x
    return sym_floor(x) if bool(x >= 0) else sym_ceil(x)


def sym_round(x, n=None):
    """x to n decimal places: the nearest multiple (either one at a tie)."""
    n = int(n or 0)
    if x.is_const():
        c = x.const_value()
        return Sym.const(Fraction(round(c * 10 ** n), 1) / Fraction(10) ** n if n >= 0 else Fraction(round(c, n)))
    if n >= 0 and is_int_sym(x):
        return x
    scale = Fraction(10) ** n
    y = x * Sym.const(scale)
    key = ("round", canon_key(y))
    g = S.ufs.get(key)
    if g is None:
        b = poly_bounds(y.num) if not y.den else None
        lo = hi = None
        if b is not None and b[0] is not None and b[1] is not None:
            lo, hi = Fraction(math.floor(b[0] + Fraction(1, 2))), Fraction(math.floor(b[1] + Fraction(1, 2)))
        g = S.new_gen("round!%d" % len(S.ufs), lo, hi, "quot", is_int=True, info=(y + Fraction(1, 2), 1))
        S.ufs[key] = g
        a, d = z_ratio(y)
        S.add(z3.And((2 * z3.ToReal(g.z) - 1) * d <= 2 * a, 2 * a <= (2 * z3.ToReal(g.z) + 1) * d))
    return Sym({((g.idx, 1),): ONE}, None) * Sym.const(1 / scale)


def sym_int(x):
    if x.is_const():
        return int(x.const_value())
    return sym_trunc(x)
