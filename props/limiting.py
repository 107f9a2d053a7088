"""L01..L06: limiting; N01, N02: sensors."""
from fractions import Fraction as Fr
from math import factorial

import numpy as np

from symx.harness import Instance as I
from .common import *
from .fluxes import State, state, gam

B = "limiting:"


# ------------------------------------------------------------------ reference reconstruction
def fint(k, n, a, b):
    """integral over [a,b] of the k-th derivative of x^n/n!"""
    m = n - k + 1
    return (Fr(b) ** m - Fr(a) ** m) / factorial(m)


def leg_to_taylor(h, u, p):
    """Taylor coefficients (derivatives at the centre) of a Legendre expansion."""
    out = []
    for k in range(p + 1):
        s = 0
        for n in range(p + 1):
            d = list(legendre(n))
            c = d[k] * factorial(k) if k < len(d) else 0
            if c:
                s = s + u[n] * h.const(c)
        out.append(s)
    return out


def taylor_to_leg(h, a, p):
    out = []
    for n in range(p + 1):
        s = 0
        for k in range(p + 1):
            w = leg_coefs([Fr(0)] * k + [Fr(1, factorial(k))], p)[n]
            if w:
                s = s + a[k] * h.const(w)
        out.append(s)
    return out


def minmod_ref(h, a, b):
    """min(|a|,|b|) with the common sign, else 0 - branching on the inputs."""
    if h.true_now(a <= b):
        lo, hi = a, b
    else:
        lo, hi = b, a
    if h.true_now(lo >= 0):
        return lo
    if h.true_now(hi <= 0):
        return hi
    return 0 * a


def hr_ref(h, uc, ul, ur, p, mm=None):
    """Hierarchical reconstruction, written from its definition."""
    mm = mm or (lambda a, b: minmod_ref(h, a, b))
    ac, al, ar = (leg_to_taylor(h, u, p) for u in (uc, ul, ur))
    lim = [0] * (p + 1)
    for m in range(p, 0, -1):
        k = m - 1

        def avg(a, lo, hi, first):
            s = 0
            for n in range(first, p + 1):
                c = fint(k, n, lo, hi)
                if c:
                    s = s + a[n] * h.const(c / 2)
            return s
        L = avg(al, -1, 1, k) - avg(lim, -3, -1, m + 1)
        C = avg(ac, -1, 1, k) - avg(lim, -1, 1, m + 1)
        R = avg(ar, -1, 1, k) - avg(lim, 1, 3, m + 1)
        lim[m] = mm((C - L) * h.const(Fr(1, 2)), (R - C) * h.const(Fr(1, 2)))
        lim[0] = C
    if p == 0:
        lim[0] = ac[0]
    return taylor_to_leg(h, lim, p), lim


# ------------------------------------------------------------------ running the real limiter
def flag(h, system, pattern):
    """Sensor stub: the given value per interior cell."""
    def sensing(sensors, thresholds, sol):
        for e in range(1, sol.N_E + 1):
            sensors[e] = pattern[(e - 1) % len(pattern)]
    h.mod("dg1d.%s_physics" % system).sensing = sensing


def mmf(h, a, b):
    """An arbitrary symmetric function."""
    return h.uf("mm", [a, b], -1, 1) + h.uf("mm", [b, a], -1, 1)


class Mm:
    """minmod as an arbitrary symmetric function (counts its calls)."""

    def __init__(self, h):
        self.h, self.n = h, 0

    def __call__(self, a, b):
        self.n += 1
        return mmf(self.h, a, b)

    def __deepcopy__(self, memo):
        return self


def put_mm(h):
    f = Mm(h)
    hook_minmod(h, f)
    return f


def limit_cell(h, p, uc, ul, ur):
    """The limiter applied to three cells, only the middle one flagged."""
    flag(h, "advection", [0, 1, 0])
    sol = make_solution(h, "advection", p, 3, ("zerograd", "zerograd"), thresholds=(0.1,))
    u = h.zeros(sol.u.shape)
    for n in range(p + 1):
        u[n, 1], u[n, 2], u[n, 3] = ul[n], uc[n], ur[n]
        u[n, 0], u[n, 4] = h.const(Fr(3, 7)), h.const(Fr(-2, 7))
    sol.u = u
    h.mod("dg1d.limiting").Limiter("adaptive_hr", sol).limit(sol)
    return sol.u[:, 2]


def cells(h, p):
    lo, hi = (-100, 100) if p < 4 else (-1, 1)
    return [h.arr(x, p + 1, lo, hi) for x in ("c", "l", "r")]


# ------------------------------------------------------------------ L01
def l01(h, p, mm="real"):
    c, l, r = cells(h, p)
    f = put_mm(h) if mm == "uf" else None
    out = limit_cell(h, p, c, l, r)
    if f is not None and not f.n and p > 0:
        h.skip("minmod not called")
    h.eq("cell average", out[0], c[0], tol=1e-9)


def l01_domain(h, system, p, N, bc, pattern, mm="uf"):
    F = nf(system)
    flag(h, system, pattern)
    f = put_mm(h) if mm == "uf" else None
    sol = make_solution(h, system, p, N, (bc, bc), thresholds=(0.1, 0.1))
    u0 = fill(h, sol)
    h.mod("dg1d.limiting").Limiter("adaptive_hr", sol).limit(sol)
    if f is not None and not f.n and p > 0:
        h.skip("minmod not called")
    for e in range(1, N + 1):
        for k in range(F):
            h.eq("average of cell %d field %d" % (e, k), sol.u[0, e * F + k], u0[0, e * F + k], tol=1e-9)


def s02_limited(h, system, p, N, pattern, rk="", mm="uf"):
    """S02 with the real limiter: the totals of a periodic domain survive limiting (and, with rk, a whole
    step in which the limiter runs after the stages)."""
    F = nf(system)
    flag(h, system, pattern)
    f = put_mm(h) if mm == "uf" else None
    if rk:
        from .spatial import Stubs, install_stubs, stub_speed, one_step
        install_stubs(h, system, Stubs(h, F))
        stub_speed(h, system)
    sol = make_solution(h, system, p, N, ("periodic", "periodic"), thresholds=(0.1, 0.1))
    u0 = fill(h, sol)
    limiter = h.mod("dg1d.limiting").Limiter("adaptive_hr", sol)
    if rk:
        one_step(h, sol, rk, h.real("T", Fr(1, 1000), Fr(1, 100)), limiter)
    else:
        limiter.limit(sol)
    if f is not None and not f.n and p > 0:
        h.skip("minmod not called")
    for k in range(F):
        a = b = 0
        for e in range(1, N + 1):
            a = a + u0[0, e * F + k]
            b = b + sol.u[0, e * F + k]
        h.eq("total of field %d, limited" % k, b, a, tol=1e-7)


def inst_l01(tier):
    big = tier != "quick"
    out = []
    for p in range(0, 4):
        out.append(I(B + "l01", dict(p=p), snap=True, budget=280))
    for p in range(1, 11 if not big else 13):
        out.append(I(B + "l01", dict(p=p, mm="uf")))
    for p in (1, 2):
        out += sizes(B + "l01", dict(p=p), snap=True, budget=280)
    for system in ("advection", "euler"):
        out.append(I(B + "l01_domain", dict(system=system, p=6, N=4, bc="zerograd", pattern=[0, 1, 2, 1])))
        out.append(I(B + "l01_domain", dict(system=system, p=1, N=20, bc="periodic", pattern=[1, 0, 2, 2, 1])))
        out.append(I(B + "l01_domain", dict(system=system, p=1, N=150 if not big else 400, bc="zerograd", pattern=[1, 0, 2, 2, 1])))
        for p in (0, 1, 3):
            for bc in ("periodic", "zerograd"):
                out.append(I(B + "l01_domain", dict(system=system, p=p, N=3, bc=bc, pattern=[1, 0, 2])))
    out.append(I(B + "l01_domain", dict(system="advection", p=1, N=2, bc="periodic", pattern=[1], mm="real"), snap=True))
    out.append(I(B + "l01_domain", dict(system="euler", p=1, N=1, bc="periodic", pattern=[1], mm="real"), snap=True))
    return out


# ------------------------------------------------------------------ L02
def l02(h, system, p, N, bc, pattern, mm="uf"):
    F = nf(system)
    flag(h, system, pattern)
    f = put_mm(h) if mm == "uf" else None
    sol = make_solution(h, system, p, N, (bc, bc), thresholds=(0.1, 0.1))
    u0 = fill(h, sol)
    ub = with_ghosts(h, u0, F, (bc, bc))
    h.mod("dg1d.limiting").Limiter("adaptive_hr", sol).limit(sol)
    if f is not None and not f.n and p > 0 and any(pattern):
        h.skip("minmod not called")
    for e in range(1, N + 1):
        flagged = pattern[(e - 1) % len(pattern)] != 0
        for k in range(F):
            j = e * F + k
            if not flagged:
                for n in range(p + 1):
                    h.eq("unflagged cell %d field %d mode %d" % (e, k, n), sol.u[n, j], u0[n, j], tol=0)
                continue
            ref, _ = hr_ref(h, ub[:, j], ub[:, j - F], ub[:, j + F], p, (lambda a, b: mmf(h, a, b)) if mm == "uf" else None)
            for n in range(p + 1):
                h.eq("flagged cell %d field %d mode %d" % (e, k, n), sol.u[n, j], ref[n], tol=1e-8)


def l02_off(h, system, p, N, kind=""):
    F = nf(system)
    flag(h, system, [1])
    sol = make_solution(h, system, p, N, ("zerograd", "periodic"), thresholds=(0.1, 0.1))
    u0 = fill(h, sol)
    h.mod("dg1d.limiting").Limiter(kind, sol).limit(sol)
    for n in range(p + 1):
        for j in range(F, u0.shape[1] - F):
            h.eq("u[%d,%d] without limiting" % (n, j), sol.u[n, j], u0[n, j], tol=0)


def inst_l02(tier):
    big = tier != "quick"
    out = []
    for system in ("advection", "euler"):
        for p in range(0, 4) if not big else range(0, 6):
            for bc in ("periodic", "zerograd"):
                for pat in ([0, 1, 0], [1, 0, 2], [1, 1, 1], [0, 0, 0]):
                    out.append(I(B + "l02", dict(system=system, p=p, N=3, bc=bc, pattern=pat), snap=True))
                out.append(I(B + "l02", dict(system=system, p=p, N=1, bc=bc, pattern=[1]), snap=True))
        out.append(I(B + "l02", dict(system=system, p=1, N=5, bc="periodic", pattern=[0, 2, 1, 0, 1]), snap=True))
        for p in (4, 5) if not big else (6, 7):
            out.append(I(B + "l02", dict(system=system, p=p, N=3, bc="periodic" if p % 2 else "zerograd", pattern=[1, 0, 2]), snap=True))
        out.append(I(B + "l02", dict(system=system, p=1, N=20, bc="zerograd", pattern=[0, 2, 1, 0, 1, 1, 0]), snap=True))
        out.append(I(B + "l02", dict(system=system, p=1, N=300 if not big else 700, bc="periodic", pattern=[0, 2, 1, 0, 1, 1, 0]), snap=True))
        out.append(I(B + "l02_off", dict(system=system, p=2, N=3)))
        out.append(I(B + "l02_off", dict(system=system, p=1, N=2, kind="none_of_these")))
    out.append(I(B + "l02", dict(system="advection", p=1, N=3, bc="periodic", pattern=[0, 1, 1], mm="real"), snap=True, budget=280))
    out += sizes(B + "l02", dict(system="advection", p=1, N=3, bc="periodic", pattern=[0, 1, 0], mm="real"), snap=True, budget=280)
    out.append(I(B + "l02", dict(system="advection", p=2, N=3, bc="zerograd", pattern=[0, 0, 1], mm="real"), snap=True, budget=280))
    out.append(I(B + "l02", dict(system="euler", p=1, N=2, bc="zerograd", pattern=[0, 1], mm="real"), snap=True, budget=280))
    return out


# ------------------------------------------------------------------ L03
def l03(h, p):
    c, l, r = cells(h, p)
    out = limit_cell(h, p, c, l, r)
    ref, _ = hr_ref(h, c, l, r, p)
    for n in range(p + 1):
        h.eq("limited mode %d" % n, out[n], ref[n], tol=1e-8)


def l03_uf(h, p):
    c, l, r = cells(h, p)
    f = put_mm(h)
    out = limit_cell(h, p, c, l, r)
    if not f.n and p > 0:
        h.skip("minmod not called")
    ref, _ = hr_ref(h, c, l, r, p, lambda a, b: mmf(h, a, b))
    for n in range(p + 1):
        h.eq("limited mode %d" % n, out[n], ref[n], tol=1e-8 if p < 6 else 1e-5)


def l03_free(h, p):
    """Each call of minmod gets the two one-sided differences of its level (in either order), given
    whatever the levels above returned; what it returns is an arbitrary number. Linear at every order."""
    c, l, r = cells(h, p)
    v = [None] + [h.real("v%d" % m, -1, 1) for m in range(1, p + 1)]
    ac, al, ar = (leg_to_taylor(h, u, p) for u in (c, l, r))

    def avg(a, lo, hi, first):
        s = 0
        for n in range(first, p + 1):
            w = fint(first if a is not v else first - 2, n, lo, hi) / 2
            if w:
                s = s + a[n] * h.const(w)
        return s

    def level(m):
        L = avg(al, -1, 1, m - 1) - avg(v, -3, -1, m + 1)
        C = avg(ac, -1, 1, m - 1) - avg(v, -1, 1, m + 1)
        R = avg(ar, -1, 1, m - 1) - avg(v, 1, 3, m + 1)
        return C, (C - L) * h.const(Fr(1, 2)), (R - C) * h.const(Fr(1, 2))
    args = []

    def mm(x, y):
        args.append((x, y))
        return v[max(p + 1 - len(args), 1)]
    hook_minmod(h, mm)
    out = limit_cell(h, p, c, l, r)
    if len(args) != p:
        h.skip("minmod called %d times at order %d" % (len(args), p))
    C = ac[0]
    for k, (x, y) in enumerate(args):
        m = p - k
        C, d1, d2 = level(m)
        size = max(sum(abs(float(legendre(n)[j] * factorial(j) * fint(m - 1, j, -1, 1))) for j in range(m - 1, n + 1))
                   for n in range(m - 1, p + 1))
        tol = h.const(Fr(max(1e-9, 1e-12 * size) * getattr(h, "unit", 1)))

        def near(s, t):
            return h.AND(s - t <= tol, t - s <= tol)
        h.true("differences at level %d" % m, h.OR(h.AND(near(x, d1), near(y, d2)), h.AND(near(x, d2), near(y, d1))))
    t = [C] + v[1:]
    ref = taylor_to_leg(h, t, p)
    for n in range(p + 1):
        h.eq("limited mode %d" % n, out[n], ref[n], tol=1e-8 if p < 6 else 1e-6)


def l03_bound(h, p=1):
    """Order 1: coefficient bounded by both one-sided differences, edges between the averages."""
    c, l, r = cells(h, p)
    out = limit_cell(h, p, c, l, r)
    d1, d2 = (c[0] - l[0]) / 2, (r[0] - c[0]) / 2
    s = out[1]
    h.true("|slope| <= |left difference|", h.AND(s <= h.abs(d1) + 1e-9, -s <= h.abs(d1) + 1e-9))
    h.true("|slope| <= |right difference|", h.AND(s <= h.abs(d2) + 1e-9, -s <= h.abs(d2) + 1e-9))
    h.true("zero when the differences disagree", h.OR(d1 * d2 > 0, h.AND(s <= 1e-9, s >= -1e-9)))
    e1, e2 = c[0] - s, c[0] + s
    for nm, x, y in (("left", e1, l[0]), ("right", e2, r[0])):
        h.true("%s edge between the averages" % nm,
               h.OR(h.AND(x >= y - 1e-9, x <= c[0] + 1e-9), h.AND(x <= y + 1e-9, x >= c[0] - 1e-9)))


def inst_l03(tier):
    big = tier != "quick"
    out = [I(B + "l03", dict(p=p), snap=True, budget=280 if p < 4 else 3000, max_paths=20000) for p in range(0, 4 if not big else 5)]
    out += [I(B + "l03_uf", dict(p=p), snap=True) for p in range(1, 7)]
    out += [I(B + "l03_free", dict(p=p)) for p in range(1, 11 if not big else 13)]
    for p in (1, 2, 4):
        out += sizes(B + "l03_free", dict(p=p))
    for p in (1, 2):
        out += sizes(B + "l03", dict(p=p), snap=True, budget=280)
    out.append(I(B + "l03_bound", dict(p=1), snap=True))
    return out


# ------------------------------------------------------------------ L04
def l04(h, p, deg, tol=1e-7):
    """Three cells of width 2 centred at -2, 0, 2 carrying one polynomial."""
    qmax = 100 if deg < 5 and p < 5 else 1
    q = [h.real("q%d" % k, -qmax, qmax) for k in range(deg + 1)]
    U = []
    for ctr in (0, -2, 2):
        u = [0] * (p + 1)
        for k in range(deg + 1):
            w = leg_coefs(pcompose([Fr(0)] * k + [Fr(1)], 1, ctr), p)
            for n in range(p + 1):
                if w[n]:
                    u[n] = u[n] + q[k] * h.const(w[n])
        U.append(u)
    out = limit_cell(h, p, *U)
    for n in range(p + 1):
        h.eq("mode %d" % n, out[n], U[0][n], tol=tol)


def l04_minmod(h, p, deg):
    """Same, with minmod replaced by its first argument after checking that both arguments agree (so that
    minmod, decided by L03, returns just that): no branching, hence higher orders."""
    n, tol = [0], 1e-7 if p < 8 else 1e-4

    def mm(a, b):
        n[0] += 1
        h.eq("both differences agree (%d)" % n[0], a, b, tol=tol)
        return a
    if h.symbolic:
        hook_minmod(h, mm)
    l04(h, p, deg, tol)


def inst_l04(tier):
    big = tier != "quick"
    out = [I(B + "l04_minmod", dict(p=p, deg=p)) for p in range(2, 9)]
    for p in range(0, 8):
        for deg in range(0, p + 1):
            if deg <= p and (p < 5 or deg <= 1 or (big and deg <= 2)):
                out.append(I(B + "l04", dict(p=p, deg=deg), snap=True, budget=280))
    for p in (1, 2):
        out += sizes(B + "l04", dict(p=p, deg=p), snap=True, budget=280)
    return out


# ------------------------------------------------------------------ L05
def l05_offset(h, p, mm="real"):
    if mm == "linear":
        put_linear(h)
    c, l, r = cells(h, p)
    k = h.real("k", -2, 2)
    out = limit_cell(h, p, c, l, r)
    sh = []
    for u in (c, l, r):
        w = u.copy()
        w[0] = w[0] + k
        sh.append(w)
    o2 = limit_cell(h, p, *sh)
    for n in range(p + 1):
        h.eq("mode %d with an offset" % n, o2[n], out[n] + (k if n == 0 else 0), tol=1e-8)


def put_linear(h):
    """minmod replaced by an arbitrary linear function: commutes with scaling, so the rest has to as well."""
    a, b = h.real("wa", -1, 1), h.real("wb", -1, 1)
    hook_minmod(h, lambda x, y: a * x + b * y)


def l05_scale(h, p, sign, wide=0, mm="real"):
    if mm == "linear":
        put_linear(h)
    c, l, r = cells(h, p)
    k = h.real("k", Fr(1, 2), 2) if sign > 0 else (h.const(-1) if sign < 0 else 0)
    if wide:
        k = k * h.const(Fr(10) ** wide)
    out = limit_cell(h, p, c, l, r)
    o2 = limit_cell(h, p, *[h.array([k * x for x in u]) for u in (c, l, r)])
    for n in range(p + 1):
        if wide:
            h.eq("mode %d scaled" % n, o2[n] / k, out[n], tol=1e-8)
        else:
            h.eq("mode %d scaled" % n, o2[n], k * out[n], tol=1e-8)


def inst_l05(tier):
    big = tier != "quick"
    out = []
    for p in range(0, 4 if not big else 5):
        out.append(I(B + "l05_offset", dict(p=p), snap=True, budget=280, max_paths=20000))
        if p < 4 or big:
            for s in (1, -1, 0):
                out.append(I(B + "l05_scale", dict(p=p, sign=s), snap=True, budget=280, max_paths=20000))
    for p in range(2, 9):
        out.append(I(B + "l05_offset", dict(p=p, mm="linear")))
        out.append(I(B + "l05_scale", dict(p=p, sign=1, mm="linear")))
        out.append(I(B + "l05_scale", dict(p=p, sign=-1, mm="linear")))
    for wide in (-12, 8):
        for p in (1, 2, 3) if big else (1, 2):
            out.append(I(B + "l05_scale", dict(p=p, sign=1, wide=wide), snap=True, budget=280, max_paths=20000))
    return out


# ------------------------------------------------------------------ L06
def limiter(h, p):
    sol = make_solution(h, "advection", p, 2, thresholds=(0.1,))
    return h.mod("dg1d.limiting").Limiter("adaptive_hr", sol)


def l06(h, p):
    L = limiter(h, p)
    u = h.arr("u", p + 1)
    t = L.legendre_to_monomial(u.copy())
    ref = leg_to_taylor(h, u, p)
    for k in range(p + 1):
        sc = max([1] + [abs(float(legendre(n)[k] * factorial(k))) for n in range(p + 1) if k < len(legendre(n))])
        h.eq("derivative %d at the centre" % k, t[k], ref[k], tol=1e-9 * sc)
    back = L.monomial_to_legendre(t)
    for n in range(p + 1):
        h.eq("mode %d after the round trip" % n, back[n], u[n], tol=1e-7)
    a = h.arr("a", p + 1)
    l2 = L.monomial_to_legendre(a.copy())
    r2 = taylor_to_leg(h, a, p)
    for n in range(p + 1):
        h.eq("Legendre mode %d of a Taylor polynomial" % n, l2[n], r2[n], tol=1e-8)


def inst_l06(tier):
    return [I(B + "l06", dict(p=p)) for p in range(0, 13 if tier == "quick" else 15)] + sizes(B + "l06", dict(p=1)) + sizes(B + "l06", dict(p=4))


# ------------------------------------------------------------------ N01
def n01_one(h, N, at, bc="zerograd"):
    """One arbitrary cell in a large domain."""
    t = h.real("threshold", Fr(1, 10 ** 6), 1)
    sol = make_solution(h, "advection", 1, N, (bc, bc), thresholds=(t,))
    u = h.zeros(sol.u.shape)
    vals = [Fr(1, 4) if (e // 4) % 2 else Fr(-1, 4) for e in range(N + 2)]
    vals[0], vals[-1] = (vals[1], vals[-2]) if bc == "zerograd" else (vals[-2], vals[1])
    for e in range(N + 2):
        u[0, e] = h.const(vals[e])
    u[0, at + 1] = h.real("x", -100, 100)
    if bc == "zerograd":
        u[0, 0], u[0, -1] = u[0, 1], u[0, -2]
    else:
        u[0, 0], u[0, -1] = u[0, -2], u[0, 1]
    sol.u = u
    sol.sensors.sensors[...] = 7
    sol.sensors.sensing(sol)
    jump = []
    for e in range(N + 1):
        d = h.abs(sol.u[0, e + 1] - sol.u[0, e])
        jump.append(h.true_now(2 * d / ((1 + d) * (1 + d)) > t))
    for e in range(1, N + 1):
        h.true("cell %d flagged %s" % (e, int(sol.sensors.sensors[e])), int(sol.sensors.sensors[e]) == (1 if jump[e - 1] or jump[e] else 0))


def n01(h, N, p, bc, th="sym", more=()):
    t = h.real("threshold", Fr(1, 10 ** 6), 1) if th == "sym" else float(Fr(th))
    sol = make_solution(h, "advection", p, N, (bc, bc), thresholds=[t] + [h.const(Fr(x)) for x in more])
    u0 = fill(h, sol, -1, 1)
    sol.u = with_ghosts(h, u0, 1, (bc, bc))
    sol.sensors.sensors[...] = 7
    sol.sensors.sensing(sol)
    jump = []
    for e in range(N + 1):
        d = h.abs(sol.u[0, e + 1] - sol.u[0, e])
        jump.append(h.true_now(2 * d / ((1 + d) * (1 + d)) > t))
    for e in range(1, N + 1):
        h.true("cell %d flagged %s" % (e, int(sol.sensors.sensors[e])), int(sol.sensors.sensors[e]) == (1 if jump[e - 1] or jump[e] else 0))


def inst_n01(tier):
    big = tier != "quick"
    out = []
    for bc in ("periodic", "zerograd"):
        for N, p in ((1, 0), (2, 1), (2, 0)) + ((3, 0), (3, 1)) + (((4, 0),) if big else ()):
            out.append(I(B + "n01", dict(N=N, p=p, bc=bc), budget=280, max_paths=20000))
        out.append(I(B + "n01", dict(N=2, p=1, bc=bc, th="1/10"), budget=280))
        out.append(I(B + "n01", dict(N=2, p=0, bc=bc, more=("1/5",)), budget=280))
        for N, at in ((9, 0), (9, 4), (9, 8), (40, 0), (40, 22), (40, 39), (300, 150)):
            out.append(I(B + "n01_one", dict(N=N, at=at, bc=bc), budget=280))
    return out


# ------------------------------------------------------------------ N02
def interface_marks(h, L, R, t1, t2):
    """(contact?, shock?) of one interface, from the definition."""
    g = L.g
    w = L.r + R.r
    v = (L.r * L.v + R.r * R.v) / w
    H = [q.a * q.a / (g - 1) + q.v * q.v / 2 for q in (L, R)]
    a2 = (g - 1) * ((L.r * H[0] + R.r * H[1]) / w - v * v / 2)
    a = h.sqrt(a2)
    dp, dr = R.p - L.p, R.rho - L.rho
    xsi = h.abs(dr - dp / a2) / (L.rho + R.rho)
    contact = h.true_now(2 * xsi / ((1 + xsi) * (1 + xsi)) > t1)
    phi = h.abs(dp) / (L.p + R.p)
    c = h.AND(2 * phi / ((1 + phi) * (1 + phi)) > t2, L.v - L.a > v - a, v - a > R.v - R.a)
    return contact, h.true_now(c)


def euler_cells(h, sol, S, bc, high=True):
    ext = [S[-1] if bc == "periodic" else S[0]] + S + [S[0] if bc == "periodic" else S[-1]]
    u = h.zeros(sol.u.shape)
    for e, q in enumerate(ext):
        for k in range(3):
            u[0, 3 * e + k] = q.U[k]
            for n in range(1, u.shape[0]):
                u[n, 3 * e + k] = h.real("h%d_%d_%d" % (n, e, k), -5, 5)
    sol.u = u
    return ext


def n02(h, layout, p=0, bc="zerograd", t=(Fr(1, 10), Fr(1, 5)), r="1", a="1", more=()):
    N = len(layout)
    t1, t2 = (h.const(x) for x in t)
    sol = make_solution(h, "euler", p, N, (bc, bc), thresholds=[t1, t2] + [h.const(Fr(x)) for x in more])
    m, g = gam(h, "7/5")
    r, a = Fr(r), Fr(a)                           # scale of the square roots of the densities, of the speeds
    S = {c: state(h, g, c, vmax=3 * a, rlo=r / 2, rhi=r * 2, alo=a / 2, ahi=a * 2) for c in sorted(set(layout))}
    S = [S[c] for c in layout]
    ext = euler_cells(h, sol, S, bc)
    sol.sensors.sensors[...] = 5
    sol.sensors.sensing(sol)
    marks = []
    for e in range(N + 1):
        L, R = ext[e], ext[e + 1]
        marks.append((False, False) if L is R else interface_marks(h, L, R, t1, t2))
    for e in range(1, N + 1):
        two = [marks[e - 1], marks[e]]
        ref = 2 if any(x[1] for x in two) else (1 if any(x[0] for x in two) else 0)
        h.true("cell %d marked %d, definition %d" % (e, int(sol.sensors.sensors[e]), ref), int(sol.sensors.sensors[e]) == ref)


def n02_class(h, kind):
    """A pure contact is never a shock; an expansion is never a shock."""
    t = [h.real("t1", Fr(1, 100), Fr(2, 5)), h.real("t2", Fr(1, 100), Fr(2, 5))] if kind == "contact" else [h.const(Fr(1, 10))] * 2
    sol = make_solution(h, "euler", 0, 2, ("zerograd", "zerograd"), thresholds=t)
    m, g = gam(h, "7/5")
    if kind == "contact":
        rl, rr = h.real("rl", Fr(1, 4), 4), h.real("rr", Fr(1, 4), 4)
        v, b = h.real("v", -3, 3), h.real("b", Fr(1, 2), 2)
        L, R = (State(h, g, r * r, v, b / r, r) for r in (rl, rr))
    else:
        L, R = state(h, g, "l"), state(h, g, "r")
        h.assume(L.v - L.a <= R.v - R.a)
    euler_cells(h, sol, [L, R], "zerograd")
    sol.sensors.sensing(sol)
    for e in (1, 2):
        h.true("cell %d marked %d" % (e, int(sol.sensors.sensors[e])), int(sol.sensors.sensors[e]) != 2)
    if kind == "contact":
        xsi = h.abs(R.rho - L.rho) / (L.rho + R.rho)
        on = h.true_now(2 * xsi / ((1 + xsi) * (1 + xsi)) > t[0])
        for e in (1, 2):
            h.true("cell %d contact mark %d" % (e, int(sol.sensors.sensors[e])), int(sol.sensors.sensors[e]) == (1 if on else 0))


def inst_n02(tier):
    big = tier != "quick"
    out = [I(B + "n02", dict(layout="AB"), budget=280), I(B + "n02", dict(layout="AB", more=("99/100",)), budget=280), I(B + "n02", dict(layout="AAB"), budget=280), I(B + "n02", dict(layout="ABB"), budget=280),
           I(B + "n02", dict(layout="AABB", p=1), budget=280),
           I(B + "n02", dict(layout="AB", p=1, bc="periodic"), budget=280),
           I(B + "n02", dict(layout="A", p=1, bc="periodic"), budget=280),
           I(B + "n02", dict(layout="A" * 20 + "B" * 280), budget=280),
           I(B + "n02", dict(layout="AB", r="1/100"), budget=280), I(B + "n02", dict(layout="AB", r="100", a="1/100"), budget=280), I(B + "n02", dict(layout="AB", r="1/1000", a="1000"), budget=280),
           I(B + "n02_class", dict(kind="contact"), budget=280), I(B + "n02_class", dict(kind="expansion"), budget=280)]
    if big:
        out.append(I(B + "n02", dict(layout="ABC"), budget=700, max_paths=20000, soft=True))
        out.append(I(B + "n02", dict(layout="AABBA", bc="periodic"), budget=3000))
    return out


_snap = "rounded table constants within 1e-14 of a fraction with denominator <= 4000 are taken as that fraction (ties in minmod are decided exactly)"
PROPS = {
    "L01": dict(instances=inst_l01, assumptions=[_snap], bounds="all cell and neighbour polynomials with coefficients in [-100,100] (orders above 3: [-1,1]); orders 0..3 with the real minmod, 1..10 (thorough 12) with an arbitrary one; whole domains of 1..3, 4 (order 6), 20 and 150 (thorough 400) cells, data also times 1e-9 to 1e8, both systems",
                stubs="prescribed sensor pattern; uninterpreted minmod where the instance name says mm=uf (skipped if the limiter has no separate minmod function)"),
    "L02": dict(instances=inst_l02, assumptions=[_snap], bounds="all coefficients in [-100,100] (stale ghosts too), orders 0..5 (thorough 7), 1,3,5,20,300 (thorough 700) cells, data also times 1e-9 to 1e8, several sensor patterns with marks 0,1,2, both systems and boundary types; tolerance 1e-8, unflagged cells exact",
                stubs="prescribed sensor pattern; uninterpreted minmod except in the instances named mm=real"),
    "L03": dict(instances=inst_l03, assumptions=[_snap], bounds="all cell and neighbour polynomials with coefficients in [-100,100] (orders above 3: [-1,1]); orders 0..3 (thorough 4) with the real minmod, 1..6 with an uninterpreted one, 1..10 (thorough 12) with its arguments compared level by level and arbitrary results in [-1,1]; data also times 1e-9 to 1e8; tolerance 1e-8 (1e-6 from order 6 on, 1e-12 of the derivative scale for the arguments)",
                stubs="prescribed sensor pattern; uninterpreted minmod in the l03_uf instances"),
    "L04": dict(instances=inst_l04, assumptions=[_snap], bounds="all global polynomials of degree <= order with coefficients in [-100,100] (orders above 4: [-1,1]), orders 0..7, every degree, data also times 1e-9 to 1e8; tolerance 1e-7 (1e-4 at order 8)", stubs="prescribed sensor pattern; above order 1 the minmod is replaced by a function returning the common value after it is checked that its arguments agree"),
    "L05": dict(instances=inst_l05, assumptions=[_snap], bounds="all cell and neighbour polynomials with coefficients in [-100,100] (orders above 3: [-1,1]), offsets in [-2,2] (orders 0..3), factors in [1/2,2], -1, 0, 1e-12 and 1e8 (orders 0..3; up to 8 with minmod replaced by an arbitrary linear function)", stubs="prescribed sensor pattern"),
    "L06": dict(instances=inst_l06, bounds="all coefficients in [-100,100], orders 0..12 (thorough 14), data also times 1e-9 to 1e8; relative tolerance 1e-9 forward, 1e-7 round trip"),
    "N01": dict(instances=inst_n01, bounds="all averages and higher modes in [-1,1], all thresholds in [1e-6,1] (and 1/10), 1..3 cells (thorough 4) and 9, 40 or 300 cells with one arbitrary in [-100,100], both boundary types, arbitrary earlier sensor values"),
    "N02": dict(instances=inst_n02, bounds="all states with densities in [1/4,4], sound speeds in [1/2,2], |v|<=3, gamma=7/5, thresholds 1/10 and 1/5, alone or followed by a third (every pair in [1/100,2/5] for contacts); 1..300 cells holding one or two distinct states (thorough: three); two-state data also with densities times 1e-6 to 1e4 and speeds times 1e-2 to 1e3"),
}
