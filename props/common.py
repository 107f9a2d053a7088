"""Shared reference mathematics (exact rationals) and set-up helpers."""
import os
import sys
from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np


# --------------------------------------------------------------- polynomials
# dense coefficient lists over Fractions, lowest degree first
def pmul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def padd(a, b, s=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else Fr(0)) + s * (b[i] if i < len(b) else Fr(0)) for i in range(n)]


def pscale(a, c):
    return [c * x for x in a]


def pder(a):
    return [k * a[k] for k in range(1, len(a))] or [Fr(0)]


def pval(a, x):
    r = 0
    for c in reversed(a):
        r = r * x + c
    return r


def pint(a, lo, hi):
    """integral from lo to hi (Fractions)"""
    return sum((c * (Fr(hi) ** (k + 1) - Fr(lo) ** (k + 1)) / (k + 1) for k, c in enumerate(a)), Fr(0))


def pcompose(a, s, t):
    """a(s*x + t)"""
    r = [Fr(0)]
    for c in reversed(a):
        r = padd(pmul(r, [Fr(t), Fr(s)]), [c])
    return r


@lru_cache(None)
def legendre(n):
    """Legendre polynomial P_n, exact."""
    if n == 0:
        return (Fr(1),)
    if n == 1:
        return (Fr(0), Fr(1))
    a, b = legendre(n - 1), legendre(n - 2)
    r = padd(pscale(pmul([Fr(0), Fr(1)], list(a)), Fr(2 * n - 1, n)), pscale(list(b), Fr(n - 1, n)), -1)
    return tuple(r)


def leg_coefs(poly, N):
    """Exact Legendre coefficients 0..N of the L2 projection of poly on [-1,1]."""
    return [Fr(2 * n + 1, 2) * pint(pmul(list(poly), list(legendre(n))), -1, 1) for n in range(N + 1)]


@lru_cache(None)
def gauss(n):
    """n Gauss-Legendre nodes and weights to 40 digits, from the roots of P_n."""
    P, D = list(legendre(n)), pder(list(legendre(n)))
    xs, ws = [], []
    import math
    for i in range(n):
        x = Fr(math.cos(math.pi * (i + 0.75) / (n + 0.5)))
        for _ in range(8):
            x = x - pval(P, x) / pval(D, x)
            x = Fr(round(x * 10 ** 40), 10 ** 40)
        d = pval(D, x)
        w = 2 / ((1 - x * x) * d * d)
        xs.append(x)
        ws.append(Fr(round(w * 10 ** 40), 10 ** 40))
    order = sorted(range(n), key=lambda i: xs[i])
    return tuple(xs[i] for i in order), tuple(ws[i] for i in order)


# ----------------------------------------------------------------- solutions
def set_gamma(h, g="7/5"):
    """Ratio of specific heats in the code under test (exact in symbolic mode)."""
    v = h.const(Fr(g)) if isinstance(g, (str, int, Fr)) else g
    h.mod("dg1d.constants").gamma = v
    return v


IC = {"advection": "sinewave %d", "euler": "entrpyw %d"}


def make_solution(h, system, p, N, bc=("periodic", "periodic"), riemann="", enh="", thresholds=(), gamma="7/5", ic=""):
    S = h.mod("dg1d.solution")
    sol = S.Solution((ic + " %d" if ic else IC[system]) % N, system, p, riemann, enh, list(thresholds))
    sol.bc_l, sol.bc_r = bc
    if system == "euler":
        set_gamma(h, gamma)
    return sol


def nf(system):
    return 3 if system == "euler" else 1


def col(sol, e, f=0):
    return e * sol.N_F + f


def fill(h, sol, lo=-100, hi=100, name="u", ghosts=True):
    """Arbitrary coefficients everywhere; ghost cells get arbitrary stale data."""
    ns, n = sol.u.shape
    F = sol.N_F
    u = h.zeros((ns, n))
    for j in range(n):
        ghost = j < F or j >= n - F
        for i in range(ns):
            if ghost:
                u[i, j] = h.real("%s_g_%d_%d" % (name, i, j), lo, hi) if ghosts else 0.0
            else:
                u[i, j] = h.real("%s_%d_%d" % (name, i, j), lo, hi)
    sol.u = u
    return u.copy()


def with_ghosts(h, u0, F, bc):
    """Reference ghost filling on a copy of u0 (columns cell-major, F fields per cell)."""
    u = u0.copy()
    n = u.shape[1]
    for f in range(F):
        first, last = F + f, n - 2 * F + f
        for i in range(u.shape[0]):
            u[i, f] = u0[i, last] if bc[0] == "periodic" else u0[i, first]
            u[i, n - F + f] = u0[i, first] if bc[1] == "periodic" else u0[i, last]
    return u


def node_values(h, u, p, j, xs):
    """Values at points xs of the Legendre expansion in column j."""
    out = []
    for x in xs:
        v = 0
        for n in range(p + 1):
            v = v + u[n, j] * h.const(pval(list(legendre(n)), x))
        out.append(v)
    return out


def trace(u, p, j, side):
    v = 0
    for n in range(p + 1):
        v = v + (u[n, j] if (side > 0 or n % 2 == 0) else -u[n, j])
    return v


class Stubs:
    """Flux stubs: arbitrary functions of the local states (uninterpreted, with congruence)."""

    def __init__(self, h, F):
        self.h, self.F = h, F
        self.n_riemann = self.n_interior = 0

    def __deepcopy__(self, memo):
        return self

    def q(self, ul, ur, f):
        return self.h.uf("q%d" % f, list(ul) + list(ur))

    def fl(self, u, f):
        return self.h.uf("f%d" % f, list(u))

    def riemann(self, ul, ur):
        self.n_riemann += 1
        n = len(ul)
        out = self.h.zeros(n)
        F = self.F
        for k in range(n // F):
            a = [ul[k * F + i] for i in range(F)]
            b = [ur[k * F + i] for i in range(F)]
            for f in range(F):
                out[k * F + f] = self.q(a, b, f)
        return out

    def interior(self, ug):
        self.n_interior += 1
        F = self.F
        out = self.h.zeros(ug.shape)
        for g in range(ug.shape[0]):
            for k in range(ug.shape[1] // F):
                a = [ug[g, k * F + i] for i in range(F)]
                for f in range(F):
                    out[g, k * F + f] = self.fl(a, f)
        return out


def install_stubs(h, system, stubs):
    m = h.mod("dg1d.%s_physics" % system)
    names = ["riemann_upwinding"] if system == "advection" else ["riemann_roe", "riemann_rusanov", "riemann_godunov"]
    for n in names:
        setattr(m, n, stubs.riemann)
    m.interior_flux = stubs.interior
    return m


def hook_minmod(h, fn):
    """Replaces the limiter's minmod by fn(a, b); skips the instance when the limiter does not go through it
    (a constant order-1 profile is limited first to see)."""
    m = h.mod("dg1d.limiting")
    real = getattr(m, "scalar_minmod", None)
    if real is None:
        h.skip("the limiter has no separate minmod function")
    if h.symbolic:
        seen = []

        def probe(a, b):
            seen.append(1)
            return a
        ph = h.mod("dg1d.advection_physics")
        old = ph.sensing

        def all_on(sensors, thresholds, sol):
            sensors[...] = 1
        m.scalar_minmod, ph.sensing = probe, all_on
        try:
            sol = make_solution(h, "advection", 1, 1, thresholds=(0.1,))
            sol.u = h.array([[0.0, 1.0, 3.0], [0.5, 0.25, 0.125]])
            m.Limiter("adaptive_hr", sol).limit(sol)
        finally:
            m.scalar_minmod, ph.sensing = real, old
        if not seen:
            h.skip("the limiter does not call its minmod function")
    m.scalar_minmod = fn


def sizes(of, params, homog=1, exps=(-9, 8), **o):
    """Instances on tiny and huge data (homogeneous properties)."""
    from symx.harness import Instance
    return [Instance("common:scaled", dict(of=of, e=e, homog=homog, **params), **o) for e in exps]


def scaled(h, of, e, homog=1, **params):
    """The instance `of` with every arbitrary number multiplied by 10^e and every equation divided by 10^(e*homog):
    decides a homogeneous property on data of that size (data thresholds hidden in the code show here)."""
    from symx.harness import resolve
    c = h.const(Fr(10) ** e)
    h.unit = 10.0 ** e
    real, eq = h.real, h.eq
    h.real = lambda name, lo, hi, **k: real(name, lo, hi, **k) * c
    cd = c
    for _ in range(homog - 1):
        cd = cd * c
    h.eq = lambda label, a, b, tol=1e-9: eq(label, a / cd, b / cd, tol=tol)
    resolve(of)(h, **params)
