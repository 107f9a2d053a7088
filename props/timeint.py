"""T01..T07: time integration."""
import sys
from fractions import Fraction as Fr

import numpy as np

from symx.harness import Instance as I
from .common import *
from .spatial import Deck, NoLimiter, RKS

B = "timeint:"
NMAX = 10 ** 7   # step counts a run may start from
HUGE = 1e-6      # wave speed of the closing steps


class Stop(Exception):
    pass


class Rec:
    """Records the outputs of a run."""

    def __init__(self, h, sol, mode=None):
        self.out, self.sol, self.h = [], sol, h
        sol.printer = self.printer

    def __deepcopy__(self, memo):
        return self

    def printer(self, nout, dt=None, *a, **k):
        s = self.sol
        self.out.append(dict(k=nout, t=s.t, n=s.n, u=s.u.copy()))


class Speed:
    """Maximum wave speed by call: 1/w_0, 1/w_1, ..., then tiny (huge stable steps)."""

    def __init__(self, h, sol, w, extra=12):
        self.h, self.sol, self.w, self.extra = h, sol, w, extra
        self.calls, self.times, self.states = 0, [], []
        sol.max_wave_speed = self

    def __deepcopy__(self, memo):
        return self

    def __call__(self):
        k = self.calls
        self.calls += 1
        self.times.append(self.sol.t)
        if k >= len(self.w) + self.extra:
            raise Stop("the run does not end")
        return 1 / self.w[k] if k < len(self.w) else HUGE


class ConstRes:
    """residual = c (one constant per degree of freedom)"""

    def __init__(self, c):
        self.c = c

    def __deepcopy__(self, memo):
        return self

    def residual(self, sol):
        sol.apply_bc()
        return self.c.copy()


def sol_for(h, p=0, N=1, system="advection", **k):
    return make_solution(h, system, p, N, **k)


# ------------------------------------------------------------------ T01
def t01(h, rk, nout, K, t0=0, p=0, tiny=False, N=1, system="advection", wide=False, long=0):
    sol = sol_for(h, p, N, system)
    ns, n = sol.u.shape
    F = nf(system)
    T = h.real("T", Fr(1, 4), 4 if not wide else 1000) if not tiny else h.real("T", Fr(1, 10 ** 10), Fr(1, 10 ** 6)) * h.const(1)
    if t0:
        sol.t = h.real("t0", -2, 2) if not wide else h.real("t0", -1000, 1000)
        sol.n = h.integer("n0", 0, NMAX)
    if long:
        T = h.const(Fr(1)) * 1
    start, n0 = sol.t, sol.n
    u0, c = h.zeros((ns, n)), h.zeros((ns, n))
    for i in range(ns):
        a, b = h.real("u%d" % i, -100, 100), h.real("c%d" % i, -100, 100)
        for j in range(n):
            u0[i, j], c[i, j] = a, b
    sol.u = u0.copy()
    rec = Rec(h, sol)
    w = [h.real("w%d" % k, Fr(1, 20), 4 if not wide else 1000) for k in range(K)]
    if long:
        # a run of many steps: a fixed stable step just below 1/long
        w = [Fr(1, 1) * h.const(Fr(99, 100) / long / (2 * Fr(1, 2) / N) * (2 * p + 1)) for _ in range(long * 2)]
    sp = Speed(h, sol, w, nout + 3)
    cfl = 0.5
    h.mod("dg1d.rk").integrate(sol, Deck(rk, start + T, cfl, nout), ConstRes(c), NoLimiter())
    h.true("%d outputs written, %d requested" % (len(rec.out), nout), len(rec.out) == nout)
    for k, o in enumerate(rec.out[:nout]):
        h.true("output %d is numbered %s" % (k, o["k"]), int(o["k"]) == k)
        tk = start + T * h.const(Fr(k, nout - 1))
        h.eq("time of output %d" % k, o["t"], tk, tol=1e-8)
        for i in range(ns):
            for j in sorted({F, n - F - 1}):
                h.eq("mode %d of output %d%s" % (i, k, "" if j == F else " (last column)"), o["u"][i, j], u0[i, j] + c[i, j] * (tk - start), tol=1e-7)
    h.eq("time at the end of the run", sol.t, start + T, tol=1e-8)
    h.eq("steps counted", sol.n, n0 + sp.calls, tol=0)
    ts = sp.times + [sol.t]
    for k in range(sp.calls):
        d = ts[k + 1] - ts[k]
        h.le("step %d is not negative" % k, 0, d, tol=1e-9)
        if k < K:
            h.le("step %d is not longer than the stable step" % k, d, sol.dx * cfl * w[k] / (2 * p + 1), tol=1e-8)


def inst_t01(tier):
    big = tier != "quick"
    out = []
    for rk in RKS + ["", "other"]:
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=2)))
    for rk in ("rk4", "low_storage_rk4"):
        for nout, K in ((2, 6), (3, 4), (4, 4), (5, 3), (6, 2)) if not big else ((2, 8), (3, 6), (4, 5), (5, 4), (8, 3)):
            out.append(I(B + "t01", dict(rk=rk, nout=nout, K=K), budget=280 if not big else 2500, max_paths=20000))
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=3, t0=1)))
        out.append(I(B + "t02_run", dict(rk=rk, nout=4, K=0), budget=280))
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=2, p=2)))
        for nout in (2, 3, 6):
            out.append(I(B + "t01", dict(rk=rk, nout=nout, K=1, tiny=True)))
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=2, p=1, N=3, system="euler")))
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=2, t0=1, wide=True)))
        out.append(I(B + "t01", dict(rk=rk, nout=12, K=1, wide=True)))
        out.append(I(B + "t01", dict(rk=rk, nout=40, K=0, t0=1)))
        out.append(I(B + "t01", dict(rk=rk, nout=130, K=0)))
        out.append(I(B + "t01", dict(rk=rk, nout=3, K=0, long=120)))
        out.append(I(B + "t01", dict(rk=rk, nout=2, K=0, t0=1, long=1100 if big else 260)))
    return out


# ------------------------------------------------------------------ T02 (rounded arithmetic)
EPS = Fr(1, 2 ** 50)


def t02(h, lo="0", hi="1000000"):
    """One adjustment in double arithmetic (every operation rounded, |relative error| <= 2^-53)."""
    rk = h.mod("dg1d.rk")
    lo, hi = Fr(lo), Fr(hi)
    t, tout, tf = (h.real(x, lo, hi) for x in ("t", "tout", "tf"))
    dt = h.real("dt", Fr(1, 10 ** 15), 10 ** 9)
    h.assume(t <= tout)
    h.assume(tout <= tf)
    t, tout, tf, dt = (h.rounded(x) for x in (t, tout, tf, dt))
    new, output, done = rk.adjust_for_output(dt, t, tf, tout)
    output, done = bool(output), bool(done)
    nt = h.exact(t + new)
    new, t, tout, tf, dt = (h.exact(x) for x in (new, t, tout, tf, dt))
    e = EPS * (tf if lo >= 0 else 2 * max(abs(lo), abs(hi)))
    eo = EPS * (tout if lo >= 0 else 2 * max(abs(lo), abs(hi)))
    h.true("not negative", new >= -eo)
    h.true("not longer than the stable step", new <= dt * (1 + EPS) + eo)
    h.true("does not overshoot the output time", nt <= tout + eo)
    if output:
        h.true("an output step ends at the output time", nt >= tout - eo)
        h.true("an output step reaches it within the stable step", dt >= tout - t - eo)
    else:
        h.true("a plain step is the stable step", h.AND(new <= dt * (1 + EPS), new >= dt * (1 - EPS)))
        h.true("no output is stepped over", dt <= tout - t + eo)
    if done:
        h.true("the last step comes with an output", output)
        h.true("the last step ends at the final time", nt >= tf - e)
    else:
        h.true("not finished although the final time is reached", h.OR(dt <= tf - t + e, tout < tf))


def t02_fp(h, dt="any"):
    """Bit-precise doubles: sign, bound by the stable step, infinite stable steps."""
    rk = h.mod("dg1d.rk")
    t, tf, tout = (h.double(x) for x in ("t", "tf", "tout"))
    d = h.double("dt") if dt == "any" else np.float64(dt)
    for c in (t >= -1e6, t <= tout, tout <= tf, tf <= 1e6):
        h.assume(c)
    if dt == "any":
        h.assume(d > 0.0)
    new, output, done = rk.adjust_for_output(d, t, tf, tout)
    output, done = bool(output), bool(done)
    h.true("not negative", new >= 0.0)
    h.true("not longer than the stable step", new <= d)
    h.true("finished only with an output", output or not done)
    if dt != "any":
        h.true("an infinite stable step ends at the output", output)
        h.true("an infinite stable step is cut to a finite one", h.same(new, tout - t))


def t02_run(h, rk, nout, K):
    """A whole run in rounded arithmetic: arbitrary stable steps, then huge ones."""
    sol = sol_for(h, 0, 1)
    T = h.real("T", Fr(1, 4), 4)
    w = [h.rounded(h.real("w%d" % k, Fr(1, 20), 4)) for k in range(K)]
    rec = Rec(h, sol)
    sp = Speed(h, sol, w, nout + 3)
    sol.t = h.rounded(h.const(0) + 0 * T)
    c = h.zeros(sol.u.shape)
    sol.u = c.copy()
    h.mod("dg1d.rk").integrate(sol, Deck(rk, h.rounded(T), 0.5, nout), ConstRes(c), NoLimiter())
    h.true("%d outputs written, %d requested" % (len(rec.out), nout), len(rec.out) == nout)
    e = Fr(1, 2 ** 44)
    T = h.exact(T)
    for k, o in enumerate(rec.out[:nout]):
        want = T * Fr(k, nout - 1)
        h.true("output %d not late" % k, h.exact(o["t"]) <= want + e)
        h.true("output %d not early" % k, h.exact(o["t"]) >= want - e)
    ts = [h.exact(x) for x in sp.times + [sol.t]]
    for k in range(sp.calls):
        h.true("time does not go back in step %d" % k, ts[k + 1] >= ts[k] - e)
        h.true("time does not pass the final time in step %d" % k, ts[k + 1] <= T + e)


def inst_t02(tier):
    big = tier != "quick"
    out = [I(B + "t02", {}), I(B + "t02", dict(lo="-1024", hi="1024")),
           I(B + "t02_fp", dict(dt="inf"), kind="fp", soft=True, timeout_ms=12000), I(B + "t02_fp", dict(dt="any"), kind="fp", soft=True, timeout_ms=12000)]
    for rk in ("rk4", "low_storage_rk4"):
        for nout, K in ((2, 1), (2, 2), (3, 1), (4, 0)) + (((2, 3), (4, 1), (5, 0)) if big else ()):
            out.append(I(B + "t02_run", dict(rk=rk, nout=nout, K=K), budget=280))
    return out


# ------------------------------------------------------------------ T03 (IEEE doubles)
class Taken(Exception):
    pass


class StopRes:
    def __deepcopy__(self, memo):
        return self

    def residual(self, sol):
        raise Taken()


class LateStop:
    """Ends the run when the residual is taken after the step size was selected `after` + 1 times."""

    def __init__(self, after):
        self.after, self.selected = after, 0

    def __deepcopy__(self, memo):
        return self

    def residual(self, sol):
        if self.selected > self.after:
            raise Taken()
        return np.zeros(np.shape(sol.u))


def outcome(h, sol, rk, res=None, nout=2):
    sol.printer = lambda *a, **k: None
    try:
        h.mod("dg1d.rk").integrate(sol, Deck(rk, 1.0, 0.5, nout), res or StopRes(), NoLimiter())
    except Taken:
        return "step"
    except SystemExit:
        return "exit"
    return "end"


def t03(h, rk):
    """Arbitrary stable step."""
    m = h.mod("dg1d.rk")
    if not hasattr(m, "cfl_time_step"):
        h.skip("no separate CFL function")
    dt = h.double("dt")
    m.cfl_time_step = lambda *a, **k: dt
    r = outcome(h, sol_for(h, 0, 1), rk)
    if r == "exit":
        h.true("the run ends only for NaN or steps below 1e-14", h.OR(h.isnan(dt), dt < 1e-14))
    else:
        h.true("a step (%s) is taken only for steps of at least 1e-14" % r, dt >= 1e-14)


def t03_late(h, rk, after, nout=2, n0=0):
    """The same after some steps of length 1/8 (0.125 in a run to 1: output and final steps included)."""
    m = h.mod("dg1d.rk")
    if not hasattr(m, "cfl_time_step"):
        h.skip("no separate CFL function")
    dt = h.double("dt")
    res = LateStop(after)

    def step(*a, **k):
        res.selected += 1
        return dt if res.selected > after else np.float64(0.125)
    m.cfl_time_step = step
    sol = sol_for(h, 0, 1)
    sol.n = n0
    r = outcome(h, sol, rk, res, nout)
    if r == "exit":
        h.true("the run ends only for NaN or steps below 1e-14", h.OR(h.isnan(dt), dt < 1e-14))
    else:
        h.true("a step (%s) is taken only for steps of at least 1e-14" % r, dt >= 1e-14)


def t03_speed(h, rk, p, dx="1", cfl="1", sign=1):
    """Every finite wave speed through the CFL formula (real arithmetic)."""
    dx, cfl = Fr(dx), Fr(cfl)
    lim = dx * cfl * 10 ** 14 / (2 * p + 1)
    v = h.real("v", Fr(1, 10 ** 6), 10 ** 18) if sign > 0 else h.real("v", -10 ** 18, -Fr(1, 10 ** 6))
    sol = sol_for(h, p, 2)
    sol.n = h.integer("n0", 0, NMAX)
    sol.max_wave_speed = lambda: v
    sol.dx = np.float64(dx)
    sol.printer = lambda *a, **k: None
    try:
        h.mod("dg1d.rk").integrate(sol, Deck(rk, 1.0, float(cfl), 2), StopRes(), NoLimiter())
        r = "end"
    except Taken:
        r = "step"
    except SystemExit:
        r = "exit"
    if r == "exit":
        h.true("the run ends only for NaN, negative or too large speeds", h.OR(v != v, v < 0, v >= float(lim) * (1 - 1e-9)))
    else:
        h.true("a step (%s) is taken only for valid speeds" % r, h.AND(v > 0, v <= float(lim) * (1 + 1e-9)))


def t03_special(h, rk, p, v, want):
    r = None
    sol = sol_for(h, p, 2)
    x = np.float64(v)
    sol.max_wave_speed = lambda: x
    d = h.double("cfl")
    h.assume(d >= 0.01)
    h.assume(d <= 2.0)
    sol.dx = np.float64(0.5)
    sol.printer = lambda *a, **k: None
    try:
        h.mod("dg1d.rk").integrate(sol, Deck(rk, 1.0, d, 2), StopRes(), NoLimiter())
        r = "end"
    except Taken:
        r = "step"
    except SystemExit:
        r = "exit"
    h.true("wave speed %s: %s, expected %s" % (v, r, want), r == want)


def inst_t03(tier):
    big = tier != "quick"
    out = [I(B + "t03", dict(rk=rk), kind="fp") for rk in RKS + ["other"]]
    for rk in ("rk4", "low_storage_rk4"):
        for after, nout, n0 in ((1, 2, 0), (3, 3, 5), (7, 2, 0), (4, 3, 99), (2, 9, 0)):
            out.append(I(B + "t03_late", dict(rk=rk, after=after, nout=nout, n0=n0), kind="fp"))
        for p in (0, 1, 2, 5, 9) if not big else range(0, 13):
            for s in (1, -1):
                out.append(I(B + "t03_speed", dict(rk=rk, p=p, sign=s)))
        out.append(I(B + "t03_speed", dict(rk=rk, p=1, dx="1/4", cfl="1/2")))
        for v, want in (("nan", "exit"), ("inf", "exit"), ("-inf", "exit")):
            out.append(I(B + "t03_special", dict(rk=rk, p=1, v=v, want=want), kind="fp"))
    return out


# ------------------------------------------------------------------ T04
def rooted_trees(maxn):
    """orders and children (index tuples) of all rooted trees with at most maxn nodes"""
    order, kids = [1], [()]

    def forests(n, mx):
        if n == 0:
            yield ()
            return
        for i in range(mx, -1, -1):
            if order[i] <= n:
                for rest in forests(n - order[i], i):
                    yield (i,) + rest
    for n in range(2, maxn + 1):
        for f in list(forests(n - 1, len(order) - 1)):
            order.append(n)
            kids.append(f)
    return order, kids


class TreeRes:
    """y_tree' = product of the y of its subtrees: one equation per rooted tree."""

    def __init__(self, h, kids, extra=(), t0=0):
        self.h, self.kids, self.extra, self.t0 = h, kids, extra, t0

    def __deepcopy__(self, memo):
        return self

    def residual(self, sol):
        u = sol.u
        out = self.h.zeros(u.shape)
        row = u[0]
        vals = [row[j + 1] for j in range(len(self.kids))]
        for i, ks in enumerate(self.kids):
            v = 1
            for k in ks:
                v = vals[k] * v
            out[0, i + 1] = v
        s = sol.t - self.t0
        b = len(self.kids) + 1
        for i, (e, child) in enumerate(self.extra):
            v = 1
            for _ in range(e):
                v = v * s
            if child is not None:
                v = v * vals[child]
            out[0, b + i] = v
        return out


class Room:
    """A solution whose single mode row has as many columns as needed."""


def t04(h, rk, order, t0="0", lo=0, steps=1):
    """Trees of lo..order nodes (their subtrees included) and right-hand sides t^e * y_tree."""
    orders, kids = rooted_trees(order)
    extra, exact = [], []
    small = [i for i, o in enumerate(orders) if o <= order - 2]
    for e in range(1, order):
        extra.append((e, None))
        exact.append((e + 1, Fr(1, e + 1)))
    gam = []
    for i, ks in enumerate(kids):
        g = Fr(orders[i])
        for k in ks:
            g *= gam[k]
        gam.append(g)
    for i in small[:40]:
        for e in range(1, order - orders[i]):
            extra.append((e, i))
            exact.append((orders[i] + e + 1, 1 / gam[i] / (orders[i] + e + 1)))
    n = len(kids) + len(extra)
    sol = sol_for(h, 0, n)
    T = h.real("T", Fr(1, 100), 1)
    start = h.const(Fr(t0)) if t0 != "sym" else h.real("t0", -2, 2)
    if t0 != "0":
        sol.t = start
    u = h.zeros(sol.u.shape)
    sol.u = u
    sol.printer = lambda *a, **k: None
    sol.max_wave_speed = lambda: HUGE
    h.mod("dg1d.rk").integrate(sol, Deck(rk, sol.t + T, 0.5, steps + 1), TreeRes(h, kids, extra, start if t0 != "0" else 0), NoLimiter())
    for i in range(len(kids)):
        if orders[i] >= lo:
            h.eq("tree %d of order %d" % (i, orders[i]), sol.u[0, i + 1] * h.const(gam[i]), T ** orders[i], tol=1e-10)
    for i, (k, c) in enumerate(exact):
        e, ch = extra[i]
        h.eq("t^%d%s" % (e, "" if ch is None else " * y(tree %d)" % ch), sol.u[0, len(kids) + 1 + i] * h.const(1 / c), T ** k, tol=1e-10)


NAMED = {"rk3": 3, "rk4": 4, "rk5": 5, "rk6": 6, "rk8": 8, "rk10": 10, "rk12": 12, "rk14": 14, "low_storage_rk4": 4, "other": 4, "": 4}


def inst_t04(tier):
    big = tier != "quick"
    out = []
    for rk, q in NAMED.items():
        top = min(q, 10 if not big else (11 if q > 12 else 12))
        out.append(I(B + "t04", dict(rk=rk, order=top), budget=500 if not big else 6000, pool=8))
        out.append(I(B + "t04", dict(rk=rk, order=min(q, 5), t0="3/4"), pool=8))
        out.append(I(B + "t04", dict(rk=rk, order=min(q, 3), t0="sym"), pool=8))
        out.append(I(B + "t04", dict(rk=rk, order=min(q, 5 if not big else 7), steps=2), pool=8))
        out.append(I(B + "t04", dict(rk=rk, order=min(q, 3 if not big else 4), t0="3/4", steps=4), pool=8))
    return out


# ------------------------------------------------------------------ T05
class UfRes:
    def __init__(self, h, log=None):
        self.h, self.log = h, log

    def __deepcopy__(self, memo):
        return self

    def residual(self, sol):
        h = self.h
        sol.apply_bc()
        if self.log is not None:
            self.log(sol)
        ns, n = sol.u.shape
        args = [sol.u[i, j] for j in range(sol.N_F, n - sol.N_F) for i in range(ns)] + [sol.t]
        out = h.zeros((ns, n))
        for j in range(sol.N_F, n - sol.N_F):
            for i in range(ns):
                out[i, j] = h.uf("res%d_%d" % (i, j), args, -1, 1)
        return out


class UfLim:
    def __init__(self, h):
        self.h = h

    def __deepcopy__(self, memo):
        return self

    def limit(self, sol):
        h = self.h
        ns, n = sol.u.shape
        F = sol.N_F
        args = [sol.u[i, j] for j in range(F, n - F) for i in range(ns)]
        new = sol.u.copy()
        for j in range(F, n - F):
            for i in range(ns):
                new[i, j] = h.uf("lim%d_%d" % (i, j), args, -1, 1)
        sol.u = new
        sol.apply_bc()


def t05(h, a, b, p, N, K, nout, lim, system="advection", t0=0, long=0):
    recs = []
    T = h.real("T", Fr(1, 4), 2)
    if long:
        T = h.const(Fr(1)) * 1
    start = h.real("t0", -1000, 1000) if t0 else 0
    n0 = h.integer("n0", 0, NMAX) if t0 else 0
    w = [h.real("w%d" % k, Fr(1, 20), 4) for k in range(K)]
    u0 = None
    for rk in (a, b):
        sol = sol_for(h, p, N, system)
        if u0 is None:
            u0 = fill(h, sol)
        sol.u = u0.copy()
        rec = Rec(h, sol)
        if t0:
            sol.t, sol.n = start * 1, n0
        if long:
            w = [h.const(Fr(99, 100) / long * N * (2 * p + 1)) for _ in range(2 * long)]
        sp = Speed(h, sol, w, nout + 3)
        h.mod("dg1d.rk").integrate(sol, Deck(rk, start + T, 0.5, nout), UfRes(h), UfLim(h) if lim else NoLimiter())
        recs.append((rec.out, sp.times, sol))
    (A, ta, sa), (Bq, tb, sb) = recs
    h.true("number of outputs %d %d" % (len(A), len(Bq)), len(A) == len(Bq))
    h.true("number of steps %d %d" % (len(ta), len(tb)), len(ta) == len(tb))
    for x, y in list(zip(A, Bq)) + [(dict(k=-1, t=sa.t, n=sa.n, u=sa.u), dict(k=-1, t=sb.t, n=sb.n, u=sb.u))]:
        h.true("numbers %s %s" % (x["k"], y["k"]), int(x["k"]) == int(y["k"]))
        h.eq("step counts at output %s" % x["k"], x["n"], y["n"], tol=0)
        h.eq("time of output %s" % x["k"], y["t"], x["t"], tol=1e-9)
        F = sa.N_F
        for i in range(u0.shape[0]):
            for j in range(F, u0.shape[1] - F):
                h.eq("output %s u[%d,%d]" % (x["k"], i, j), y["u"][i, j], x["u"][i, j], tol=1e-8)


def inst_t05(tier):
    big = tier != "quick"
    out = []
    for lim in (0, 1):
        for p, N, K, nout in ((0, 1, 1, 2), (1, 1, 1, 3), (0, 2, 2, 2), (1, 2, 1, 2), (0, 1, 3, 2)) + (((1, 2, 3, 3), (2, 2, 2, 3), (0, 3, 4, 2)) if big else ()):
            out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=p, N=N, K=K, nout=nout, lim=lim)))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=0, N=1, K=1, nout=2, lim=lim, system="euler")))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=1, N=2, K=2, nout=3, lim=lim, t0=1)))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=0, N=1, K=1, nout=9, lim=lim)))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=3, N=5, K=0, nout=2, lim=lim)))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=2, N=3, K=0, nout=2, lim=lim, system="euler")))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=0, N=1, K=0, nout=2, lim=lim, long=12)))
        out.append(I(B + "t05", dict(a="rk4", b="low_storage_rk4", p=0, N=1, K=0, nout=4, lim=lim, t0=1, long=105)))
        for b in ("", "rk7", "RK8", "euler"):
            out.append(I(B + "t05", dict(a="rk4", b=b, p=1, N=1, K=1, nout=2, lim=lim)))
    return out


# ------------------------------------------------------------------ T06
class FreshLim:
    """Every call replaces the state by new arbitrary values."""

    def __init__(self, h):
        self.h, self.calls, self.last, self.inputs = h, 0, None, []

    def __deepcopy__(self, memo):
        return self

    def limit(self, sol):
        h, F = self.h, sol.N_F
        ns, n = sol.u.shape
        self.inputs.append(sol.u.copy())
        new = sol.u.copy()
        for j in range(F, n - F):
            for i in range(ns):
                new[i, j] = h.real("lim%d_%d_%d" % (self.calls, i, j), -100, 100)
        self.calls += 1
        sol.u = new
        sol.apply_bc()
        self.last = sol.u.copy()


def t06(h, rk, steps, p=0, N=1, system="advection", sub=1, n0=0):
    sol = sol_for(h, p, N, system)
    if n0:
        sol.n = h.integer("n0", 0, NMAX)
    u0 = fill(h, sol)
    sol.u = u0.copy()
    sol.apply_bc()
    F = sol.N_F
    lim = FreshLim(h)
    events = []

    def on_res(s):
        events.append(("res", s.u.copy(), lim.last, lim.calls))
    rec = Rec(h, sol)
    inner = rec.printer

    def printer(*a, **k):
        inner(*a, **k)
        events.append(("out", sol.u.copy(), lim.last, lim.calls))
    sol.printer = printer
    T = h.real("T", Fr(1, 4), 2) if sub == 1 else h.const(Fr(steps)) * 1
    # sub > 1: several steps per output
    v = HUGE if sub == 1 else h.const(Fr(2, N) / 2 / (2 * p + 1) * (sub - Fr(1, 2)))

    def speed():
        events.append(("step", sol.u.copy(), lim.last, lim.calls))
        return v
    sol.max_wave_speed = speed
    h.mod("dg1d.rk").integrate(sol, Deck(rk, T, 0.5, steps + 1), UfRes(h, on_res), lim)
    events.append(("end", sol.u.copy(), lim.last, lim.calls))
    state, seen, nres = u0, 0, 0
    first, prev = True, ""
    for seq, (kind, u, last, calls) in enumerate(events):
        ref = state if (kind == "res" and first) or (kind in ("out", "step") and last is None) else last
        if ref is None:
            h.true("%s state was limited" % kind, False)
            continue
        what = {"res": "state whose residual is taken (%s stage)" % ("first" if first else "later"), "out": "state written", "step": "state advanced", "end": "final state"}[kind] + " (event %d)" % seq
        for j in range(F, u.shape[1] - F):
            for i in range(u.shape[0]):
                h.eq("%s, u[%d,%d]" % (what, i, j), u[i, j], ref[i, j], tol=1e-9)
        if kind == "res":
            if not first:
                h.true("a new limiting before stage (event %d)" % seq, calls > seen)
            first = False
            nres += 1
        if kind in ("out", "step"):
            if last is not None and prev == "res":
                h.true("a new limiting before the %s (event %d)" % ({"out": "output", "step": "next step"}[kind], seq), calls > seen)
            state, first = u, True
        prev = kind
        seen = calls
    h.true("stages were taken", nres >= 3 * steps * sub)


def inst_t06(tier):
    out = []
    for rk in RKS + ["other"]:
        out.append(I(B + "t06", dict(rk=rk, steps=2, n0=1)))
        out.append(I(B + "t06", dict(rk=rk, steps=2 if rk not in ("rk10", "rk12", "rk14") else 1, sub=3 if rk != "rk14" else 2)))
    for rk in ("rk4", "low_storage_rk4", "rk3"):
        out.append(I(B + "t06", dict(rk=rk, steps=2, p=1, N=2)))
        out.append(I(B + "t06", dict(rk=rk, steps=2, p=0, N=1, sub=3, n0=1)))
        out.append(I(B + "t06", dict(rk=rk, steps=1, p=0, N=1, sub=25)))
        out.append(I(B + "t06", dict(rk=rk, steps=11, p=0, N=1)))
        out.append(I(B + "t06", dict(rk=rk, steps=1, p=0, N=2, system="euler")))
        if tier != "quick":
            out.append(I(B + "t06", dict(rk=rk, steps=4, p=2, N=3)))
    return out


# ------------------------------------------------------------------ T07
class Once:
    """Lets one step be taken, after `skip` steps with wave speed 1."""

    def __init__(self, sol, v, skip=0):
        self.sol, self.v, self.n, self.skip, self.t = sol, v, 0, skip, 0

    def __deepcopy__(self, memo):
        return self

    def __call__(self):
        self.n += 1
        if self.n <= self.skip:
            return 1.0
        if self.n == self.skip + 1:
            self.t = self.sol.t
        if self.n > self.skip + 1:
            raise Stop()
        return self.v() if callable(self.v) else self.v


def t07(h, rk, p, N, system="advection", speed="stub", dx="mesh", skip=0):
    sol = make_solution(h, system, p, N)
    if speed != "real":
        sol.n = h.integer("n0", 0, NMAX)
    cfl = h.real("cfl", Fr(1, 100), 2)
    if dx == "sym":
        sol.dx = h.real("dx", Fr(1, 100), 2)
        d = sol.dx
    else:
        d = h.const(Fr(2, N))
    final = 10000.0
    if speed in ("stub", "wide"):
        v = h.real("v", Fr(1, 10), 10) if speed == "stub" else h.real("v", Fr(1, 10 ** 6), 10 ** 6)
        final = final if speed == "stub" else 1e8
        sol.max_wave_speed = Once(sol, v, skip)
    else:
        real = sol.max_wave_speed
        if system == "advection":
            fill(h, sol)
            v = 1
        else:
            from .fluxes import state, gam
            m, g = gam(h, "7/5")
            v, u = None, h.zeros(sol.u.shape)
            for e in range(N + 2):
                q = state(h, g, "_%d" % (1 if e == 0 else N if e == N + 1 else e)) if 0 < e <= N else None
                if q is None:
                    continue
                s = h.abs(q.v) + q.a
                v = s if v is None else (v if h.true_now(v >= s) else s)
                for k in range(3):
                    u[0, 3 * e + k] = q.U[k]
                    for i in range(1, p + 1):
                        u[i, 3 * e + k] = h.real("hi%d_%d_%d" % (i, e, k), -100, 100)
            u[:, 0:3] = u[:, 3 * N:3 * N + 3]
            u[:, 3 * N + 3:] = u[:, 3:6]
            sol.u = u
        sol.max_wave_speed = Once(sol, real)
    sol.printer = lambda *a, **k: None
    c = h.zeros(sol.u.shape)
    try:
        h.mod("dg1d.rk").integrate(sol, Deck(rk, final, cfl, 2), ConstRes(c), NoLimiter())
        h.true("the step is far below the final time", False)
    except Stop:
        pass
    t0 = sol.max_wave_speed.t
    h.eq("length of the step", (sol.t - t0) * v * (2 * p + 1), d * cfl, tol=1e-9)


def inst_t07(tier):
    big = tier != "quick"
    out = []
    for p in range(0, 6 if not big else 9):
        for rk in ("rk4", "low_storage_rk4"):
            out.append(I(B + "t07", dict(rk=rk, p=p, N=1 + p)))
        out.append(I(B + "t07", dict(rk="rk3", p=p, N=2, dx="sym")))
        out.append(I(B + "t07", dict(rk="rk3", p=p, N=3, speed="real")))
        out.append(I(B + "t07", dict(rk="rk4", p=p, N=2 + p, speed="wide")))
    for p in (7, 9, 12):
        out.append(I(B + "t07", dict(rk="rk4", p=p, N=2)))
    for rk in RKS:
        out.append(I(B + "t07", dict(rk=rk, p=1, N=4)))
        out.append(I(B + "t07", dict(rk=rk, p=0, N=3, speed="wide", skip=1)))
    for N in (60, 300):
        out.append(I(B + "t07", dict(rk="rk4", p=2, N=N)))
        out.append(I(B + "t07", dict(rk="low_storage_rk4", p=0, N=N, speed="wide")))
    out.append(I(B + "t07", dict(rk="rk4", p=1, N=2, skip=5)))
    out.append(I(B + "t07", dict(rk="low_storage_rk4", p=1, N=2, skip=12)))
    for N in (1, 2) if not big else (1, 2, 3):
        out.append(I(B + "t07", dict(rk="rk4", p=1, N=N, system="euler", speed="real"), budget=280))
    out.append(I(B + "t07", dict(rk="low_storage_rk4", p=0, N=2, system="euler", speed="real"), budget=280))
    return out


PROPS = {
    "T01": dict(instances=inst_t01, bounds="all final times in [1/4,4] (wide: [1/4,1000]; tiny: [1e-10,1e-6]) after the start time (0, any in [-2,2], wide: [-1000,1000]), all sequences of up to 6 (thorough 8) stable steps in [1/20,4] (wide: [1/20,1000]) followed by steps longer than the run, 2..130 outputs, runs of 120 and 260 (thorough 1100) equal steps, constant residuals, any step count (to 1e7) before the run; one run with four outputs in rounded arithmetic; every integrator (two arbitrary steps), rk4 and low-storage up to six",
                stubs="max_wave_speed (arbitrary value per call), residual (arbitrary constant), printer (recorder), no limiter", outside="runs with one output (nout=1) stop with StopIteration"),
    "T02": dict(instances=inst_t02, technique="symbolic execution of the real Python source on reals with a rounding error per operation (standard model of IEEE doubles, z3 NRA) and on z3 IEEE-754 double terms; counterexamples replayed on the real code",
                bounds="all times 0 <= t <= tout <= tf <= 1e6 and -1024 <= t <= tout <= tf <= 1024, stable steps in [1e-15,1e9] (bit-precise instances: every positive double, infinity), each rounded operation off by at most 2^-53 relative, tolerance 2^-50 of the largest time; whole runs with up to 2 (thorough 3) arbitrary stable steps, 2..3 (thorough 4) outputs, final times in [1/4,4]",
                stubs="in whole runs: max_wave_speed arbitrary per call, zero residual"),
    "T03": dict(instances=inst_t03, technique="symbolic execution of the real Python source on z3 IEEE-754 double terms (bit-precise) and on reals; counterexamples replayed on the real code",
                bounds="every double (NaN, infinities, zeros, subnormals) as stable step for every integrator; every wave speed with 1e-6 <= |v| <= 1e18 (threshold to 1e-9 relative), NaN and infinities, orders 0,1,2,5,9 (thorough 0..12); first step (after any number of earlier ones to 1e7 in t03_speed), and steps after 1..7 regular ones (output and final steps included)",
                stubs="the CFL step (t03) or max_wave_speed (t03_speed, t03_special) is arbitrary; residual stub ends the run when a step is taken"),
    "T04": dict(instances=inst_t04, budget=dict(quick=700, thorough=9000),
                bounds="all step sizes in [1/100,1]; all rooted trees up to min(named order, 10) nodes (thorough: 12, 11 for rk14) and right-hand sides t^e*y with e up to the order, start time 0, 3/4 and any in [-2,2]; two and four consecutive steps up to order 5 and 3 (thorough 7, 4); tolerance 1e-10 relative to the exact coefficient",
                stubs="residual = one differential equation per rooted tree (B-series: matching all of them is matching every smooth right-hand side); huge stable step; no limiter",
                outside="conditions of order 11..14 for rk12 and rk14 in the quick tier; order 12..14 of rk14"),
    "T05": dict(instances=inst_t05, bounds="arbitrary residual and limiter functions of the state (and time), all initial states in [-1,1], up to 3 (thorough 4) arbitrary stable steps, runs of 12 and 105 equal steps, 2..9 outputs, start time 0 or any in [-1000,1000] with any earlier step count to 1e7; unrecognised names '', rk7, RK8, euler",
                stubs="residual and limiter are uninterpreted functions; max_wave_speed arbitrary per call"),
    "T06": dict(instances=inst_t06, bounds="arbitrary residuals, limiter results arbitrary per call, all initial states and final times, 1..11 outputs with 1..25 steps each, any earlier step count to 1e7, every integrator",
                stubs="residual uninterpreted; limiter returns new arbitrary values on each call; max_wave_speed tiny"),
    "T07": dict(instances=inst_t07, bounds="all CFL numbers in [1/100,2], wave speeds in [1e-6,1e6], cell sizes in [1/100,2] and of 1..300-element meshes, orders 0..5 (thorough 8), 7, 9, 12, the first step and later ones; with the real Euler wave speed: all states with densities in [1/16,16] on 1..2 cells (thorough 3)",
                stubs="max_wave_speed except in the speed=real instances; zero residual"),
}
