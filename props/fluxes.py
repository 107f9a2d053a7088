"""F01..F09: interface fluxes and wave speeds; the flux part of S05."""
from fractions import Fraction as Fr
import inspect
import math

import numpy as np

from symx.harness import Instance as I
from .common import *

B = "fluxes:"
SOLVERS = ("riemann_rusanov", "riemann_roe", "riemann_godunov")


def euler(h, g="7/5"):
    m = h.mod("dg1d.euler_physics")
    if g == "sym":
        g = h.real("gamma", Fr(11, 10), 3)
    v = set_gamma(h, g)
    return m, (h.const(Fr(v)) if isinstance(v, (str, Fr)) else v)


def gam(h, g):
    """(module, gamma) - gamma exact in symbolic mode."""
    m = h.mod("dg1d.euler_physics")
    v = h.real("gamma", Fr(11, 10), 3) if g == "sym" else h.const(Fr(g))
    h.mod("dg1d.constants").gamma = v
    return m, v


class State:
    """Primitive state: rho = r^2, p = rho a^2/gamma."""

    def __init__(self, h, g, rho, v, a, r=None):
        self.h, self.g, self.rho, self.v, self.a, self.r = h, g, rho, v, a, r
        self.p = rho * a * a / g
        self.E = self.p / (g - 1) + rho * v * v / 2

    @property
    def U(self):
        return [self.rho, self.rho * self.v, self.E]

    @property
    def F(self):
        return [self.rho * self.v, self.rho * self.v * self.v + self.p, (self.E + self.p) * self.v]


def state(h, g, sfx, vmax=3, rlo=Fr(1, 2), rhi=2, alo=Fr(1, 2), ahi=2):
    r = h.real("r" + sfx, rlo, rhi)
    v = h.real("v" + sfx, -vmax, vmax)
    a = h.real("a" + sfx, alo, ahi)
    return State(h, g, r * r, v, a, r)


WIDE = dict(vmax=2000, rlo=Fr(1, 1000), rhi=1000, alo=Fr(1, 1000), ahi=2000)


def wstate(h, g, sfx, wide, **kw):
    return state(h, g, sfx, **(WIDE if wide else kw))


def flat(h, states):
    return h.array([x for s in states for x in s.U])


FIXED = [(Fr(1), Fr(0), Fr(1), Fr(1, 8), Fr(0), Fr(11, 10)),          # left rho v a, right rho v a
         (Fr(2), Fr(-1, 2), Fr(1), Fr(1), Fr(3, 2), Fr(3, 4)),        # transonic expansion (entropy fix)
         (Fr(1, 4), Fr(5, 2), Fr(1, 2), Fr(9, 4), Fr(-1, 4), Fr(3, 2)),
         (Fr(1), Fr(-3), Fr(1), Fr(1, 4), Fr(-2), Fr(1)),
         (Fr(1), Fr(-13), Fr(1), Fr(2), Fr(4), Fr(5, 4)),             # very strong expansion
         (Fr(1, 1000), Fr(300), Fr(40), Fr(50), Fr(-200), Fr(1, 50)),  # very strong collision
         (Fr(1, 10000), Fr(1, 100), Fr(1, 500), Fr(1, 400), Fr(-1, 50), Fr(1, 300)),    # cold, thin, slow
         (Fr(1), Fr(0), Fr(1000), Fr(1), Fr(1), Fr(1000)),            # very hot
         (Fr(1000), Fr(1, 4), Fr(1, 1000), Fr(1000), Fr(1, 4), Fr(1, 500))]           # very cold


def fixed(h, g, i):
    c = [h.const(x) for x in FIXED[i]]
    return State(h, g, c[0], c[1], c[2]), State(h, g, c[3], c[4], c[5])


# ------------------------------------------------------------------ F01
def f01(h, solver, g="7/5", n=1, wide=0):
    m, g = gam(h, g)
    S = [wstate(h, g, str(i), wide) for i in range(n)]
    Fl = getattr(m, solver)(flat(h, S), flat(h, S))
    for i in range(n):
        for k in range(3):
            h.eq("%s flux %d field %d" % (solver, i, k), Fl[3 * i + k], S[i].F[k], tol=1e-7)


def f01_interior(h, g, p, n, wide=0):
    m, g = gam(h, g)
    S = [[wstate(h, g, "%d_%d" % (q, i), wide) for i in range(n)] for q in range(p)]
    u = h.zeros((p, 3 * n))
    for q in range(p):
        for i in range(n):
            for k in range(3):
                u[q, 3 * i + k] = S[q][i].U[k]
    Fl = m.interior_flux(u)
    for q in range(p):
        for i in range(n):
            for k in range(3):
                h.eq("interior flux node %d cell %d field %d" % (q, i, k), Fl[q, 3 * i + k], S[q][i].F[k], tol=1e-8)


def f01_adv(h, n):
    m = h.mod("dg1d.advection_physics")
    u = h.arr("u", n, -3, 3)
    w = h.arr("w", (2, n), -3, 3)
    Fl = m.riemann_upwinding(u, u.copy())
    G = m.interior_flux(w)
    for i in range(n):
        h.eq("upwind flux %d" % i, Fl[i], u[i], tol=0)
        for q in range(2):
            h.eq("interior flux %d %d" % (q, i), G[q, i], w[q, i], tol=0)


def inst_f01(tier):
    big = tier != "quick"
    out = [I(B + "f01_adv", dict(n=n)) for n in (1, 3)]
    for g in ("7/5", "3", "5/3", "sym"):
        out.append(I(B + "f01", dict(solver="riemann_rusanov", g=g, n=1)))
        out.append(I(B + "f01", dict(solver="riemann_roe", g=g, n=1)))
        out.append(I(B + "f01_interior", dict(g=g, p=2, n=2)))
        out.append(I(B + "f01_interior", dict(g=g, p=1, n=3, wide=1)))
        for sv in SOLVERS:
            if g != "sym":
                out.append(I(B + "f01", dict(solver=sv, g=g, wide=1)))
    for g in ("7/5", "3", "5/3", "2"):
        out.append(I(B + "f01", dict(solver="riemann_godunov", g=g, n=1)))
    for s in SOLVERS:
        out.append(I(B + "f01", dict(solver=s, n=2), budget=240))
        out.append(I(B + "f01", dict(solver=s, n=3), budget=600))
    return out


# ------------------------------------------------------------------ F09
class QState(State):
    """State with p = q^k, k = 2 gamma/(gamma-1) an integer, so that every power law is rational."""

    def __init__(self, h, g, k, q, v, a):
        self.h, self.g, self.k, self.q, self.v, self.a = h, g, k, q, v, a
        self.p = q ** k
        self.rho = g * self.p / (a * a)
        self.E = self.p / (g - 1) + self.rho * v * v / 2


KOF = {"3": 3, "2": 4, "5/3": 5, "7/5": 7}


def rare_pair(h, g, k, sfx, sides="lr", vmax=2, lo=Fr(1, 2), hi=2):
    """Two states joined by a contact and rarefactions on the given sides, written down from
    the middle state (pressure X^k, velocity vs); returns also X and vs."""
    X, vs = h.real("x" + sfx, lo, hi), h.real("vs" + sfx, -vmax, vmax)
    out = []
    for s, sg in (("l", -1), ("r", 1)):
        a = h.real("a" + s + sfx, lo, hi)
        q = X
        if s in sides:
            q = X * h.real("e" + s + sfx, Fr(1001, 1000), hi)
        out.append(QState(h, g, k, q, vs + (a - a * X / q) * (k - 2) * sg, a))
    return out[0], out[1], X, vs


def exact_rarefaction(h, L, R, X, vs):
    """Primitive state on the interface of the exact solution (the solver decides where the interface lies)."""
    k, g = L.k, L.g
    if h.true_now(vs >= 0):
        q, sg = L, 1
    else:
        q, sg = R, -1
    v, a, w = q.v * sg, q.a, vs * sg             # mirrored so that the wave is a left one
    am = a * X / q.q
    if h.true_now(v - a >= 0):
        return q.rho, q.v, q.p
    if h.true_now(w - am <= 0):
        f, c, u = X / q.q, am, w
    else:
        u = (a * 2 + (g - 1) * v) / (g + 1)      # inside the fan: u = c
        f = u / a
    return q.rho * f ** (k - 2), u * sg, q.p * f ** k


def phys(g, rho, v, p):
    return [rho * v, rho * v * v + p, (p / (g - 1) + rho * v * v / 2 + p) * v]


def f09(h, g="3", sides="lr"):
    k = KOF[g]
    m, g = gam(h, g)
    L, R, X, vs = rare_pair(h, g, k, "", sides)
    ref = phys(g, *exact_rarefaction(h, L, R, X, vs))
    Fl = m.riemann_godunov(flat(h, [L]), flat(h, [R]))
    for i in range(3):
        h.eq("interface flux field %d" % i, Fl[i], ref[i], tol=1e-6)


class Wave:
    """One outer state, joined to the middle pressure X^k and velocity vs by a shock or a rarefaction."""

    def __init__(self, h, g, k, side, kind, X, vs, sfx, smax):
        sg = -1 if side == "l" else 1
        a = h.real("a" + side + sfx, Fr(1, 2), 2)
        self.kind = kind
        if kind == "r":
            e = h.real("e" + side + sfx, Fr(1001, 1000), 2)
            self.s = QState(h, g, k, X * e, vs + (a - a / e) * (k - 2) * sg, a)
            self.m = self.s.rho * a * (g - 1) / (2 * g) * (1 - 1 / e ** k) / (1 - 1 / e)
            self.rho = self.s.rho / e ** (k - 2)
        else:
            d = h.real("d" + side + sfx, Fr(1, 1000), smax)        # pressure ratio minus one
            G = (g + 1) / (g - 1)
            e = h.power(1 + d, Fr(1, k))
            z = h.sqrt(1 + (g + 1) / (2 * g) * d)
            self.s = QState(h, g, k, X / e, vs - a * d / (g * z) * sg, a)
            self.m = self.s.rho * a * z
            self.rho = self.s.rho * (1 + G * (1 + d)) / (G + 1 + d)
            # entering supersonically into a shock is outside this property
            h.assume(self.s.v * sg > -a)


class Middle:
    """One outer state joined to the middle pressure X^k and velocity vs: shock, rarefaction or nothing."""

    def __init__(self, h, g, k, side, kind, X, vs, emax):
        sg = -1 if side == "l" else 1
        a = h.real("a" + side, Fr(1, 2), 2)
        self.kind, self.sg, self.X, self.vs, self.k, self.g = kind, sg, X, vs, k, g
        if kind == "n":
            self.s = QState(h, g, k, X, vs, a)
            self.m, self.rho = self.s.rho * a, self.s.rho
        elif kind == "r":
            e = h.real("e" + side, Fr(1001, 1000), 2)
            self.s = QState(h, g, k, X * e, vs + (a - a / e) * (k - 2) * sg, a)
            self.m = self.s.rho * a * (g - 1) / (2 * g) * (1 - 1 / e ** k) / (1 - 1 / e)
            self.rho = self.s.rho / e ** (k - 2)
        else:
            e = h.real("e" + side, Fr(101, 100), emax)             # pressure ratio e^k
            d, G = e ** k - 1, (g + 1) / (g - 1)
            z = h.sqrt(1 + (g + 1) / (2 * g) * d)
            self.s = QState(h, g, k, X / e, vs - a * d / (g * z) * sg, a)
            self.m = self.s.rho * a * z
            self.rho = self.s.rho * (1 + G * (1 + d)) / (G + 1 + d)
            h.assume(self.s.v * sg > -a)           # met subsonically

    def on_interface(self, h):
        """(rho, v, p) at x/t = 0 when the contact moves away from this side."""
        p = self.X ** self.k
        if self.kind != "r":
            return self.rho, self.vs, p
        q, sg, k, g = self.s, -self.sg, self.k, self.g
        v, a, w = q.v * sg, q.a, self.vs * sg
        am = a * self.X / q.q
        if h.true_now(v - a >= 0):
            return q.rho, q.v, q.p
        if h.true_now(w - am <= 0):
            f, u = self.X / q.q, w
        else:
            u = (a * 2 + (g - 1) * v) / (g + 1)
            f = u / a
        return q.rho * f ** (k - 2), u * sg, q.p * f ** k


def f09_waves(h, g, left, right, emax="5/4", at=""):
    """Any pair of waves, shocks included.  The fixed-point iteration has no closed form, so its mass-flux helper
    (decided by f09_massflux) is replaced by the exact mass flux of each wave; everything around it - the middle
    pressure, the velocity, the densities behind the waves, the state on the interface - is the real code.
    Counterexamples and witnesses are run on the real code without any replacement."""
    k = KOF[g]
    m, g = gam(h, g)
    X = h.real("x", Fr(9, 10), Fr(11, 10))
    vs = h.real("vs", *((0, Fr(3, 2)) if at == "+" else (Fr(-3, 2), 0)))
    L, R = Middle(h, g, k, "l", left, X, vs, Fr(emax)), Middle(h, g, k, "r", right, X, vs, Fr(emax))
    h.assume((L.s.v - R.s.v) * (g - 1) / 2 + L.s.a + R.s.a > 0)    # no vacuum (implied)
    for w in (L, R):                               # subsonic behind a shock met subsonically (implied by the Lax condition)
        if w.kind == "s":
            h.assume(vs * w.sg > -h.sqrt(g * X ** k / w.rho))
    if h.symbolic:
        fn = getattr(m, "massflux", None)
        if fn is None or list(inspect.signature(fn).parameters) != ["r", "c", "pQ", "pm"]:
            h.skip("no massflux(r, c, pQ, pm) helper")

        def exact(r, c, pQ, pm):
            for w in (L, R):
                if h.same(r, w.s.rho) and h.same(c, w.s.a) and h.same(pQ, w.s.p):
                    return w.m
            h.skip("mass flux of a state that is neither side")
        m.massflux = exact
    Fl = m.riemann_godunov(flat(h, [L.s]), flat(h, [R.s]))
    ref = phys(g, *(L if at == "+" else R).on_interface(h))
    for i in range(3):
        h.eq("interface flux field %d" % i, Fl[i], ref[i], tol=1e-4)


PAIRS = [FIXED[0],
         (Fr(1), Fr(0), Fr(1), Fr(100), Fr(-20), Fr(30)),             # a heavy hot gas runs into a light one
         (Fr(1, 8), Fr(0), Fr(11, 10), Fr(1), Fr(0), Fr(1)),
         (Fr(1), Fr(3, 4), Fr(1), Fr(2), Fr(-1, 2), Fr(3, 4)),        # two shocks
         (Fr(4), Fr(1, 4), Fr(2), Fr(1, 20), Fr(-1, 4), Fr(1)),       # expansion through the sonic point
         (Fr(30), Fr(9, 10), Fr(1), Fr(1, 30), Fr(0), Fr(40))]


def exact_interface(g, c):
    """State on the interface for two constant gases (floats, bisection on the middle pressure)."""
    rL, vL, aL, rR, vR, aR = map(float, c)
    pL, pR = rL * aL * aL / g, rR * aR * aR / g

    def fun(p, r, pq, a):
        if p > pq:
            return (p - pq) / math.sqrt(r / 2 * ((g + 1) * p + (g - 1) * pq))
        return 2 * a / (g - 1) * ((p / pq) ** ((g - 1) / (2 * g)) - 1)
    lo, hi = 0.0, 1e7
    for _ in range(200):
        p = (lo + hi) / 2
        if fun(p, rL, pL, aL) + fun(p, rR, pR, aR) + vR - vL > 0:
            hi = p
        else:
            lo = p
    v = (vL + vR) / 2 + (fun(p, rR, pR, aR) - fun(p, rL, pL, aL)) / 2
    sg, r, pq, a, w, u = (1, rL, pL, aL, v, vL) if v >= 0 else (-1, rR, pR, aR, -v, -vR)
    if p > pq:
        S = u - a * math.sqrt((g + 1) / (2 * g) * p / pq + (g - 1) / (2 * g))
        G = (g - 1) / (g + 1)
        out = (r, u, pq) if S >= 0 else (r * (p / pq + G) / (G * p / pq + 1), w, p)
    else:
        am = a * (p / pq) ** ((g - 1) / (2 * g))
        if u - a >= 0:
            out = (r, u, pq)
        elif w - am <= 0:
            out = (r * (p / pq) ** (1 / g), w, p)
        else:
            f = (2 + (g - 1) * u / a) / (g + 1)
            out = (r * f ** (2 / (g - 1)), a * f, pq * f ** (2 * g / (g - 1)))
    return out[0], out[1] * sg, out[2]


def f09_fixed(h, order, kind, g="7/5"):
    """The iteration itself: given pairs (up to twenty-odd iterations) around one arbitrary undisturbed interface."""
    gf = float(Fr(g))
    m, g = gam(h, g)
    if kind == "uniform":
        S = state(h, g, "")
        ref = S.F
        L = R = S
    elif kind == "right":
        L, R = state(h, g, "l", 4), state(h, g, "r", 4)
        h.assume(L.v >= L.a)
        h.assume(R.v > -R.a)
        ref = L.F
    else:
        L, R = state(h, g, "l", 4), state(h, g, "r", 4)
        h.assume(R.v <= -R.a)
        h.assume(L.v < 0)
        ref = R.F
    P, F = [], []
    for i in order:
        if i < 0:
            P.append((L, R))
            F.append([(x, 1e-6) for x in ref])
            continue
        c = [h.const(x) for x in PAIRS[i]]
        P.append((State(h, g, *c[:3]), State(h, g, *c[3:])))
        r, v, p = exact_interface(gf, PAIRS[i])
        F.append([(h.const(Fr(x)), 1e-4 * max(1, abs(x))) for x in (r * v, r * v * v + p, v * (gf / (gf - 1) * p + r * v * v / 2))])
    Fl = m.riemann_godunov(flat(h, [a for a, b in P]), flat(h, [b for a, b in P]))
    for j, f in enumerate(F):
        for k in range(3):
            h.eq("interface %d flux field %d" % (j, k), Fl[3 * j + k], f[k][0], tol=f[k][1])


def f09_massflux(h, g="3", kind="s"):
    """The mass flux through a wave, from the outer state and the middle pressure."""
    k = KOF[g]
    m, g = gam(h, g)
    fn = getattr(m, "massflux", None)             # a helper; the property does not hinge on its existence
    if fn is None or list(inspect.signature(fn).parameters) != ["r", "c", "pQ", "pm"]:
        h.skip("no massflux(r, c, pQ, pm) helper")
    X = h.real("x", Fr(1, 2), 2)
    w = Wave(h, g, k, "l", kind, X, h.const(0), "", 4)
    h.eq("mass flux", fn(w.s.rho, w.s.a, w.s.p, X ** k), w.m, tol=1e-7)


def inst_f09(tier):
    gs = ("3", "2", "5/3", "7/5")
    out = [I(B + "f09", dict(g=g, sides=s), budget=200) for g in gs for s in ("lr", "l", "r")]
    for g, w, at, e in (("3", "sr", "+", "3/2"), ("3", "sn", "+", "3/2"), ("3", "ns", "+", "3/2"), ("3", "ss", "+", "3/2"), ("3", "rs", "-", "3/2"), ("3", "ns", "-", "3/2"),
                        ("7/5", "sr", "+", "5/4"), ("7/5", "sn", "+", "5/4"), ("7/5", "ns", "+", "5/4"), ("7/5", "ss", "+", "5/4")):
        out.append(I(B + "f09_waves", dict(g=g, left=w[0], right=w[1], emax=e, at=at), budget=280, loose=1e-4, soft=True))
    for g in ("7/5", "5/3", "2") + (("11/10", "3") if tier != "quick" else ()):
        for order, kind in (([0, 1, -1, 2, 3, 4, 5], "right"), ([5, 4, 3, 2, 1, 0, -1], "left"), ([-1, 1, 3, 5, 0, 2, 4], "uniform")):
            out.append(I(B + "f09_fixed", dict(order=order, kind=kind, g=g), budget=200, round_roots=True))
    return out + [I(B + "f09_massflux", dict(g=g, kind=k)) for g in gs for k in "sr"]


# ------------------------------------------------------------------ F02
def pair(h, g, kind, sfx, gname="7/5"):
    """A left/right pair of symbolic or fixed states."""
    if kind.startswith("fixed"):
        return fixed(h, g, int(kind[5:]))
    if kind == "wide":
        return wstate(h, g, "l" + sfx, 1), wstate(h, g, "r" + sfx, 1)
    if kind == "uniform":
        s = state(h, g, sfx)
        return s, s
    if kind == "contact":
        s = state(h, g, sfx)
        d = h.real("d" + sfx, Fr(1, 2), 2)
        return s, State(h, g, s.rho * d * d, s.v, s.a / d)
    if kind.startswith("rare"):                    # rare, rarel, rarer: contact and rarefaction(s)
        return rare_pair(h, g, KOF[gname], sfx, kind[4:] or "lr")[:2]
    if kind == "subsonic":
        L, R = (state(h, g, x + sfx, Fr(1, 4), Fr(4, 5), Fr(5, 4), Fr(4, 5), Fr(5, 4)) for x in "lr")
        h.assume((L.v - R.v) * (g - 1) / 2 + L.a + R.a > 0)
        return L, R
    L, R = state(h, g, "l" + sfx, 4), state(h, g, "r" + sfx, 4)
    if kind == "right":
        h.assume(L.v >= L.a)
        h.assume(R.v > -R.a)
    elif kind == "collide":
        h.assume(L.v >= L.a)
        h.assume(R.v <= -R.a)
    elif kind == "left":
        h.assume(R.v <= -R.a)
        h.assume(L.v <= L.a * h.const(Fr(9, 10)))
    return L, R


def f02(h, solver, kinds, gname="7/5"):
    m, g = gam(h, gname)
    P = [pair(h, g, k, str(i), gname) for i, k in enumerate(kinds)]
    ul, ur = flat(h, [a for a, b in P]), flat(h, [b for a, b in P])
    kl, kr = ul.copy(), ur.copy()
    fn = getattr(m, solver)
    Fl = fn(ul, ur).copy()
    for i in range(3 * len(P)):
        h.eq("left input %d unchanged" % i, ul[i], kl[i], tol=0)
        h.eq("right input %d unchanged" % i, ur[i], kr[i], tol=0)
    for j, (a, b) in enumerate(P):
        one = fn(flat(h, [a]), flat(h, [b]))
        for k in range(3):
            h.eq("interface %d field %d" % (j, k), Fl[3 * j + k], one[k], tol=1e-8)


def f02_adv(h, n):
    m = h.mod("dg1d.advection_physics")
    u, w = h.arr("u", n), h.arr("w", n)
    k, kw = u.copy(), w.copy()
    Fl = h.array(list(m.riemann_upwinding(u, w)))
    G = h.array([list(r) for r in m.interior_flux(h.array([list(u), list(w)]))])
    for i in range(n):
        h.eq("left %d unchanged" % i, u[i], k[i], tol=0)
        h.eq("right %d unchanged" % i, w[i], kw[i], tol=0)
        one = m.riemann_upwinding(h.array([u[i]]), h.array([w[i]]))
        h.eq("interface %d" % i, Fl[i], one[0], tol=0)
        h.eq("interior %d" % i, G[1, i], m.interior_flux(h.array([[w[i]]]))[0, 0], tol=0)


def inst_f02(tier):
    big = tier != "quick"
    out = [I(B + "f02_adv", dict(n=n)) for n in (1, 4)]
    out.append(I(B + "f02", dict(solver="riemann_rusanov", kinds=["any"] * (2 if not big else 3)), budget=240))
    nfix = 2 if not big else 4
    for i in range(nfix):
        for s in ("riemann_roe", "riemann_rusanov"):
            out.append(I(B + "f02", dict(solver=s, kinds=["any", "fixed%d" % i]), budget=280))
            out.append(I(B + "f02", dict(solver=s, kinds=["fixed%d" % i, "any"]), budget=280))
    out.append(I(B + "f02", dict(solver="riemann_roe", kinds=["fixed1", "any", "fixed2"]), budget=280))
    for s in ("riemann_roe", "riemann_rusanov"):
        for i in (4, 5, 6):
            out.append(I(B + "f02", dict(solver=s, kinds=["wide", "fixed%d" % i]), budget=280))
            out.append(I(B + "f02", dict(solver=s, kinds=["fixed%d" % i, "wide"]), budget=280))
    for s in ("riemann_roe", "riemann_rusanov"):
        for n, at in ((6, 0), (7, 5), (11, 10), (40, 33)) if not big else ((11, 0), (11, 10), (40, 17), (40, 39), (200, 133), (600, 599)):
            out.append(I(B + "f02", dict(solver=s, kinds=["any" if k == at else "fixed%d" % (k % 3) for k in range(n)]), budget=280))
    for ks in (["right", "left"], ["left", "right"], ["uniform", "right"], ["right", "uniform"], ["contact", "left"], ["left", "uniform"],
               ["uniform", "contact"], ["contact", "uniform"]):
        out.append(I(B + "f02", dict(solver="riemann_godunov", kinds=ks), budget=240))
    for ks in (["fixed7", "fixed0", "right"], ["right", "fixed0", "fixed7"], ["fixed0", "fixed2", "left"], ["fixed8", "fixed0", "fixed1", "right"], ["left", "fixed7", "fixed8", "fixed0"],
               ["uniform", "fixed0"], ["fixed6", "fixed5", "right"], ["fixed5", "fixed6", "left"], ["left", "fixed5", "fixed0", "right"]):
        out.append(I(B + "f02", dict(solver="riemann_godunov", kinds=ks), budget=240, round_roots=True))
    for n, at in ((11, 4), (40, 33)) if not big else ((40, 0), (200, 133)):
        out.append(I(B + "f02", dict(solver="riemann_godunov", kinds=["right" if k == at else "fixed%d" % (0, 7, 2, 5, 1, 6, 3, 8)[k % 8] for k in range(n)]), budget=280, round_roots=True))
    for g in ("3", "7/5") + (("5/3",) if big else ()):
        for ks in (["right", "rarel"], ["rarel", "right"], ["left", "rarer"], ["rarer", "left"], ["rarel", "rarer"], ["rarer", "rarel"], ["rare", "contact"], ["contact", "rare"]):
            out.append(I(B + "f02", dict(solver="riemann_godunov", kinds=ks, gname=g), budget=280))
    return out


# ------------------------------------------------------------------ F03
def roe_speed(h, L, R):
    """Roe average velocity and sound speed squared."""
    v = (L.r * L.v + R.r * R.v) / (L.r + R.r)
    H = lambda s: s.a * s.a / (s.g - 1) + s.v * s.v / 2
    Hh = (L.r * H(L) + R.r * H(R)) / (L.r + R.r)
    return v, (L.g - 1) * (Hh - v * v / 2)


def f03(h, solver, side, g="7/5", wide=0):
    m, g = gam(h, g)
    L, R = wstate(h, g, "l", wide, vmax=4), wstate(h, g, "r", wide, vmax=4)
    s = 1 if side == "right" else -1
    up, dn = (L, R) if s > 0 else (R, L)
    for q in (L, R):
        h.assume(q.v * s >= q.a)
    if solver == "riemann_roe":
        v, a2 = roe_speed(h, L, R)
        h.assume(v * s >= 0)
        ah = h.sqrt(a2)
        h.assume(v * s > ah)
        h.assume(v * s + ah >= 0)                 # implied; helps the solver
        h.assume(R.v - R.a <= L.v - L.a)
        h.assume(R.v + R.a <= L.v + L.a)
    Fl = getattr(m, solver)(flat(h, [L]), flat(h, [R]))
    for k in range(3):
        h.eq("%s-going supersonic flux field %d" % (side, k), Fl[k], up.F[k], tol=1e-7)


def f03_adv(h, n):
    m = h.mod("dg1d.advection_physics")
    u, w = h.arr("u", n, -5, 5), h.arr("w", n, -5, 5)
    Fl = m.riemann_upwinding(u, w)
    for i in range(n):
        h.eq("left value %d" % i, Fl[i], u[i], tol=0)


def inst_f03(tier):
    out = [I(B + "f03_adv", dict(n=n)) for n in (1, 3)]
    gs = ("7/5", "3", "5/3", "11/10", "2") + (() if tier == "quick" else ("4/3", "101/100", "67/50"))
    for side in ("right", "left"):
        for g in gs:
            for s in ("riemann_roe", "riemann_godunov"):
                for w in (0, 1):
                    out.append(I(B + "f03", dict(solver=s, side=side, g=g, wide=w), budget=240))
    return out


# ------------------------------------------------------------------ F04
def f04(h, solver, g="7/5", still=False, wide=0):
    m, g = gam(h, g)
    lo, hi = (Fr(1, 1000), 1000) if wide else (Fr(1, 4), 4)
    rl, rr = h.real("rl", lo, hi), h.real("rr", lo, hi)
    v = 0 if still else h.real("v", -2000, 2000) if wide else h.real("v", -3, 3)
    b = h.real("b", Fr(1, 1000), 1000) if wide else h.real("b", Fr(1, 2), 2)                  # p = b^2/gamma, a = b/r
    L, R = (State(h, g, r * r, h.const(0) if still else v, b / r) for r in (rl, rr))
    Fl = getattr(m, solver)(flat(h, [L]), flat(h, [R]))
    if still:
        for k, x in enumerate((0, L.p, 0)):
            h.eq("standing contact field %d" % k, Fl[k], x, tol=1e-7)
        return
    if h.true_now(v >= 0):
        up = L
    else:
        up = R
    for k in range(3):
        h.eq("contact flux field %d" % k, Fl[k], up.F[k], tol=1e-7)


def inst_f04(tier):
    out = []
    gs = ("7/5", "3", "5/3") + (() if tier == "quick" else ("2", "4/3"))
    for s in ("riemann_roe", "riemann_godunov"):
        for g in gs + (("sym",) if s == "riemann_roe" else ()):
            for st in (0, 1):
                for w in (0, 1):
                    out.append(I(B + "f04", dict(solver=s, g=g, still=st, wide=w), budget=280))
    return out


# ------------------------------------------------------------------ F05
def f05(h, g="7/5", side="1", solver="riemann_roe", strong=0):
    """Stationary shock with density ratio s^2; M^2 = 2 s^2/((g+1)-(g-1)s^2)."""
    m, g = gam(h, g)
    s = h.real("s", 2, Fr(24, 10) if g > h.const(Fr(13, 10)) else 4) if strong else h.real("s", Fr(11, 10), Fr(2))
    h.assume(s * s * (g - 1) <= (g + 1) * h.const(Fr(49, 50) if strong else Fr(19, 20)))
    r1 = h.real("r1", Fr(1, 2), 2)
    v1 = h.real("v1", Fr(1, 2), 3)
    M2 = 2 * s * s / ((g + 1) - (g - 1) * s * s)
    rho1 = r1 * r1
    p1 = rho1 * v1 * v1 / (M2 * g)
    p2 = p1 * (1 + 2 * g / (g + 1) * (M2 - 1))
    rho2, v2 = rho1 * s * s, v1 / (s * s)

    def U(rho, v, p):
        return [rho, rho * v, p / (g - 1) + rho * v * v / 2]
    a, b = (rho1, v1, p1), (rho2, v2, p2)
    if side == "3":                               # mirrored: supersonic side on the right
        a, b = (rho2, -v2, p2), (rho1, -v1, p1)
    # Lax entropy condition of the shock family (part of being a shock)
    al, ar = (h.sqrt(g * w[2] / w[0]) for w in (a, b))
    sg = -1 if side == "1" else 1
    h.assume(a[1] + sg * al >= 0)
    h.assume(b[1] + sg * ar <= 0)
    h.assume(a[1] + sg * al >= b[1] + sg * ar)
    Fl = getattr(m, solver)(h.array(U(*a)), h.array(U(*b)))
    rho, v, p = a
    ref = [rho * v, rho * v * v + p, (p / (g - 1) + rho * v * v / 2 + p) * v]
    for k in range(3):
        h.eq("stationary shock flux field %d" % k, Fl[k], ref[k], tol=1e-6)


def inst_f05(tier):
    gs = ("7/5", "3", "5/3", "sym") + (() if tier == "quick" else ("2", "11/10"))
    return [I(B + "f05", dict(g=g, side=s), budget=280) for g in gs for s in ("1", "3")] + \
        [I(B + "f05", dict(g=g, side=s, strong=1), budget=280) for g in ("7/5", "11/10") for s in ("1", "3")]


# ------------------------------------------------------------------ F06
def rusanov_ref(h, L, R):
    sl, sr = h.abs(L.v) + L.a, h.abs(R.v) + R.a
    s = sl if h.true_now(sl >= sr) else sr
    return s, [(L.F[k] + R.F[k]) / 2 - s * (R.U[k] - L.U[k]) / 2 for k in range(3)]


def f06_form(h, g, n=1, wide=0):
    m, g = gam(h, g)
    P = [(wstate(h, g, "l%d" % i, wide), wstate(h, g, "r%d" % i, wide)) for i in range(n)]
    Fl = m.riemann_rusanov(flat(h, [a for a, b in P]), flat(h, [b for a, b in P]))
    for i, (L, R) in enumerate(P):
        s, ref = rusanov_ref(h, L, R)
        for k in range(3):
            h.eq("flux %d field %d" % (i, k), Fl[3 * i + k], ref[k], tol=1e-8)


def f06_split(h, g, N, bc="zerograd"):
    """First-order update through the real residual = convex combination of U and U +- F/s."""
    sol = make_solution(h, "euler", 0, N, (bc, bc), "rusanov", gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    S = [state(h, g, str(e)) for e in range(N)]
    ext = [S[0] if bc == "zerograd" else S[-1]] + S + [S[-1] if bc == "zerograd" else S[0]]
    u = h.zeros(sol.u.shape)
    for e, q in enumerate(ext):
        for k in range(3):
            u[0, 3 * e + k] = q.U[k]
    sol.u = u
    R = h.mod("dg1d.dg").DG(sol).residual(sol)
    lam = h.real("lam", Fr(1, 100), 1)            # dt/dx
    dx = Fr(2, N)
    ss = []
    for e in range(N + 1):
        ss.append(rusanov_ref(h, ext[e], ext[e + 1])[0])
    for e in range(1, N + 1):
        sl, sr = ss[e - 1], ss[e]
        for k in range(3):
            new = u[0, 3 * e + k] + lam * h.const(dx) * R[0, 3 * e + k]
            a, b, c = ext[e - 1], ext[e], ext[e + 1]
            # U'' = (1-lam(sl+sr)/2) U + lam/2 (sl U_l + F_l) + lam/2 (sr U_r - F_r)
            ref = b.U[k] * (1 - lam * (sl + sr) / 2) + lam * (sl * a.U[k] + a.F[k]) / 2 + lam * (sr * c.U[k] - c.F[k]) / 2
            h.eq("update of cell %d field %d" % (e, k), new, ref, tol=1e-7)


def f06_admissible(h, g, sign):
    """s U + sign F is admissible for every s >= |v|+a (the terms of the convex combination)."""
    m, g = gam(h, g)
    q = state(h, g, "")
    s = h.real("s", Fr(1, 2), 10)
    h.assume(s >= h.abs(q.v) + q.a)
    Fl = m.interior_flux(h.array([q.U]))
    W = [s * q.U[k] + Fl[0, k] * sign for k in range(3)]
    h.true("density stays positive", W[0] > 0)
    h.true("internal energy stays positive", 2 * W[0] * W[2] - W[1] * W[1] > 0)


def f06_density(h, g, N=2):
    """Density after one first-order step, straight from the real residual."""
    sol = make_solution(h, "euler", 0, N, ("zerograd", "zerograd"), "rusanov", gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    S = [state(h, g, str(e)) for e in range(N)]
    u = h.zeros(sol.u.shape)
    for e, q in enumerate([S[0]] + S + [S[-1]]):
        for k in range(3):
            u[0, 3 * e + k] = q.U[k]
    sol.u = u
    R = h.mod("dg1d.dg").DG(sol).residual(sol)
    dt = h.real("dt", Fr(1, 1000), 2)
    for q in S:
        h.assume(dt * (h.abs(q.v) + q.a) <= h.const(Fr(2, N)))
    for e in range(1, N + 1):
        h.true("density of cell %d positive" % e, u[0, 3 * e] + dt * R[0, 3 * e] >= -1e-9)


def inst_f06(tier):
    big = tier != "quick"
    out = []
    for g in ("7/5", "3", "5/3", "sym") + (("2",) if big else ()):
        out.append(I(B + "f06_form", dict(g=g)))
        out.append(I(B + "f06_form", dict(g=g, wide=1)))
        out.append(I(B + "f06_split", dict(g=g, N=2), budget=280))
        for s in (1, -1):
            out.append(I(B + "f06_admissible", dict(g=g, sign=s)))
    out.append(I(B + "f06_form", dict(g="7/5", n=2)))
    out.append(I(B + "f06_split", dict(g="7/5", N=2, bc="periodic"), budget=280))
    out.append(I(B + "f06_density", dict(g="7/5"), budget=280))
    if big:
        out.append(I(B + "f06_split", dict(g="7/5", N=3), budget=1200))
    return out


# ------------------------------------------------------------------ F07
def scaled(h, q, c=None, s=None):
    """Same state with density scaled by c^2 / velocities scaled by s."""
    rho, v, a, r = q.rho, q.v, q.a, q.r
    if c is not None:
        rho, r = rho * c * c, r * c
    if s is not None:
        v, a = v * s, a * s
    return State(h, q.g, rho, v, a, r)


def factor(h, wide):
    """Scaling factor: wide is a power of ten, so that the scaled data are far from order one."""
    f = h.real("f", Fr(1, 2), 2)
    return f * h.const(Fr(10) ** wide) if wide else f


def f07(h, what, mode, g="7/5", wide=0):
    m, g = gam(h, g)
    f = factor(h, wide)
    L = state(h, g, "l")
    kw = {"c": f} if mode == "density" else {"s": f}
    fac = [f * f] * 3 if mode == "density" else [f, f * f, f * f * f]
    if what == "interior":
        a = m.interior_flux(h.array([L.U]))[0]
        b = m.interior_flux(h.array([scaled(h, L, **kw).U]))[0]
    else:
        R = state(h, g, "r")
        if what == "speed":
            u, w = h.zeros((2, 6)), h.zeros((2, 6))
            for k in range(3):
                u[0, k], u[0, 3 + k] = L.U[k], R.U[k]
                w[0, k], w[0, 3 + k] = scaled(h, L, **kw).U[k], scaled(h, R, **kw).U[k]
            x, y = m.max_wave_speed(u), m.max_wave_speed(w)
            h.eq("wave speed", y if mode == "density" else y / f, x, tol=1e-8)
            return
        fn = getattr(m, what)
        a = fn(flat(h, [L]), flat(h, [R]))
        b = fn(flat(h, [scaled(h, L, **kw)]), flat(h, [scaled(h, R, **kw)]))
    for k in range(3):
        h.eq("%s field %d" % (what, k), b[k] / fac[k], a[k], tol=1e-7)


def f07_sensor(h, mode, g="7/5", wide=0):
    sol = make_solution(h, "euler", 0, 2, ("zerograd", "zerograd"), thresholds=(0.1, 0.1), gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    f = factor(h, wide)
    kw = {"c": f} if mode == "density" else {"s": f}
    q = [state(h, g, "l"), state(h, g, "r")]
    res = []
    for w in (q, [scaled(h, x, **kw) for x in q]):
        u = h.zeros((1, 12))
        for e, x in enumerate([w[0], w[0], w[1], w[1]]):
            for k in range(3):
                u[0, 3 * e + k] = x.U[k]
        sol.u = u
        sol.sensors.sensing(sol)
        res.append([int(x) for x in sol.sensors.sensors])
    h.true("sensors unchanged %s" % (res,), res[0] == res[1])


def inst_f07(tier):
    out = []
    gs = ("7/5", "3") if tier == "quick" else ("7/5", "3", "5/3")
    for g in gs:
        for mode in ("density", "velocity"):
            for what in ("interior", "speed", "riemann_rusanov", "riemann_roe"):
                for wide in (0, -4, 4) if g == "7/5" or tier != "quick" else (0,):
                    out.append(I(B + "f07", dict(what=what, mode=mode, g=g, wide=wide), budget=280))
            for wide in (0, -4, 4) if g == "7/5" or tier != "quick" else (0,):
                out.append(I(B + "f07_sensor", dict(mode=mode, g=g, wide=wide), budget=280))
    return out


# ------------------------------------------------------------------ F08
def f08(h, N, p=1, g="7/5", via="solution", wide=0):
    sol = make_solution(h, "euler", p, N, ("zerograd", "zerograd"), gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    S = [wstate(h, g, str(e), wide) for e in range(N)]
    ext = [S[0]] + S + [S[-1]]
    u = h.zeros(sol.u.shape)
    for e, q in enumerate(ext):
        for k in range(3):
            u[0, 3 * e + k] = q.U[k]
            for i in range(1, p + 1):
                u[i, 3 * e + k] = h.real("h%d_%d_%d" % (i, e, k), -5, 5)
    sol.u = u
    w = sol.max_wave_speed() if via == "solution" else m.max_wave_speed(u)
    sp = [h.abs(q.v) + q.a for q in S]
    for e in range(N):
        h.le("speed of cell %d" % (e + 1), sp[e], w, tol=1e-9)
    h.true("attained by some cell", h.OR(*[h.AND(w - x <= 1e-9, x - w <= 1e-9) for x in sp]))


def f08_one(h, N, at, p=1, g="7/5"):
    """One arbitrary cell in a large domain of gas at rest or moving left."""
    sol = make_solution(h, "euler", p, N, ("zerograd", "zerograd"), gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    c = h.const
    S = [wstate(h, g, "x", 1) if e == at else State(h, g, c(1), c(Fr(-(e % 3), 4)), c(Fr(3, 4)), c(1)) for e in range(N)]
    u = h.zeros(sol.u.shape)
    for e, q in enumerate([S[0]] + S + [S[-1]]):
        for k in range(3):
            u[0, 3 * e + k] = q.U[k]
            for i in range(1, p + 1):
                u[i, 3 * e + k] = c(Fr(k + i + e % 5, 7))
    sol.u = u
    w = sol.max_wave_speed()
    x = h.abs(S[at].v) + S[at].a
    rest = Fr(1, 2) + Fr(3, 4)
    for e, q in enumerate(S):
        if e == at:
            h.le("speed of cell %d" % (e + 1), x, w, tol=1e-9)
    h.true("attained by some cell", h.OR(h.AND(w - x <= 1e-9, x - w <= 1e-9), h.AND(w - rest <= 1e-9, rest - w <= 1e-9, x <= w)))


def f08_adv(h, N, p):
    sol = make_solution(h, "advection", p, N)
    fill(h, sol)
    h.eq("advection wave speed", sol.max_wave_speed(), 1, tol=0)


def inst_f08(tier):
    big = tier != "quick"
    out = [I(B + "f08_adv", dict(N=n, p=p)) for n, p in ((1, 0), (3, 2))]
    for g in ("7/5", "3", "5/3", "sym"):
        for N in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
            for w in (0, 1):
                out.append(I(B + "f08", dict(N=N, g=g, wide=w), budget=240))
    out.append(I(B + "f08", dict(N=2, p=0, via="module")))
    for N, at in ((12, 0), (12, 5), (12, 10), (12, 11), (70, 0), (70, 33), (70, 68), (70, 69), (300, 257), (1200, 1111)):
        out.append(I(B + "f08_one", dict(N=N, at=at), budget=240))
    return out


# ------------------------------------------------------------------ F10
def roe_ref(h, g, L, R):
    """Roe flux from the characteristic decomposition of the jump at the Roe average; (flux, speeds, jump parts)."""
    w = L.r / (L.r + R.r)
    HL, HR = (L.E + L.p) / L.rho, (R.E + R.p) / R.rho
    v, H = w * L.v + (1 - w) * R.v, w * HL + (1 - w) * HR
    a2 = (g - 1) * (H - v * v / 2)
    a = h.sqrt(a2)
    rho = L.r * R.r
    dr, dv, dp = R.rho - L.rho, R.v - L.v, R.p - L.p
    parts = []
    for lam, al, vec, ends in (
            (v - a, (dp - rho * a * dv) / (2 * a2), (1, v - a, H - v * a), (L.v - L.a, R.v - R.a)),
            (v, dr - dp / a2, (1, v, v * v / 2), None),
            (v + a, (dp + rho * a * dv) / (2 * a2), (1, v + a, H + v * a), (L.v + L.a, R.v + R.a))):
        mag = h.abs(lam)
        if ends:
            width = 4 * (ends[1] - ends[0])
            if h.true_now(width > 0) and h.true_now(mag < width / 2):
                mag = mag * mag / width + width / 4
        parts.append((lam, mag, al, vec))
    return parts


def f10(h, g="7/5", n=1, wide=0):
    m, g = gam(h, g)
    P = []
    for i in range(n):
        P.append((wstate(h, g, "l%d" % i, wide), wstate(h, g, "r%d" % i, wide)))
    Fl = m.riemann_roe(flat(h, [a for a, b in P]), flat(h, [b for a, b in P]))
    for i, (L, R) in enumerate(P):
        parts = roe_ref(h, g, L, R)
        for k in range(3):
            ref = (L.F[k] + R.F[k]) / 2
            for lam, mag, al, vec in parts:
                ref = ref - mag * al * vec[k] / 2
            h.eq("flux %d field %d" % (i, k), Fl[3 * i + k], ref, tol=1e-7)


def f10_sonic(h, g, family, size):
    """Jumps between gases that both move at nearly their speed of sound: one acoustic speed is nearly zero."""
    m, g = gam(h, g)
    e = Fr(size)
    x, y = h.real("x", -e, e), h.real("y", -e, e)
    d = h.real("d", Fr(1, 2), 2)
    a = h.const(1)
    s = -1 if family == "r" else 1                 # family l: v - a about 0; family r: v + a about 0
    L = State(h, g, h.const(1), a * s + x, a, h.const(1))
    R = State(h, g, d * d, a * s + y, a, d)
    Fl = m.riemann_roe(flat(h, [L]), flat(h, [R]))
    parts = roe_ref(h, g, L, R)
    for k in range(3):
        ref = (L.F[k] + R.F[k]) / 2
        for lam, mag, al, vec in parts:
            ref = ref - mag * al * vec[k] / 2
        h.eq("flux field %d" % k, Fl[k], ref, tol=1e-9)


def inst_f10(tier):
    big = tier != "quick"
    out = []
    for g in ("7/5", "3", "5/3", "2", "sym") + (("4/3", "11/10") if big else ()):
        out.append(I(B + "f10", dict(g=g), budget=280))
        out.append(I(B + "f10", dict(g=g, wide=1), budget=280))
    for g in ("7/5", "5/3", "2"):
        for fam in "lr":
            for e in ("1/10", "1/1000", "1/100000"):
                out.append(I(B + "f10_sonic", dict(g=g, family=fam, size=e), budget=280))
    return out


# ------------------------------------------------------------------ mirror (part of S05)
def mirrored(h, q):
    if isinstance(q, QState):
        return QState(h, q.g, q.k, q.q, -q.v, q.a)
    return State(h, q.g, q.rho, -q.v, q.a, q.r)


def mirror(h, solver, g="7/5", kind="any"):
    gname = g
    m, g = gam(h, g)
    L, R = pair(h, g, kind, "", gname) if kind not in ("any",) else (state(h, g, "l"), state(h, g, "r"))
    fn = getattr(m, solver)
    a = fn(flat(h, [L]), flat(h, [R]))
    b = fn(flat(h, [mirrored(h, R)]), flat(h, [mirrored(h, L)]))
    for k in range(3):
        h.eq("mirrored flux field %d" % k, b[k], a[k] if k == 1 else -a[k], tol=1e-7)


def mirror_interior(h, g="7/5"):
    m, g = gam(h, g)
    q = state(h, g, "")
    a = m.interior_flux(h.array([q.U]))[0]
    b = m.interior_flux(h.array([mirrored(h, q).U]))[0]
    for k in range(3):
        h.eq("mirrored physical flux field %d" % k, b[k], a[k] if k == 1 else -a[k], tol=1e-8)


def mirror_speed(h, g="7/5"):
    m, g = gam(h, g)
    S = [state(h, g, str(i)) for i in range(2)]
    a = m.max_wave_speed(h.array([[x for q in S for x in q.U]]))
    b = m.max_wave_speed(h.array([[x for q in S[::-1] for x in mirrored(h, q).U]]))
    h.eq("mirrored wave speed", b, a, tol=1e-8)


def mirror_contact(h, g="7/5"):
    """Contact marks of mirrored data (second threshold out of reach, so that no shock mark interferes)."""
    sol = make_solution(h, "euler", 0, 2, ("zerograd", "zerograd"), thresholds=(0.1, 10.0), gamma=g if g != "sym" else "7/5")
    m, g = gam(h, g)
    q = [state(h, g, "l"), state(h, g, "r")]
    res = []
    for w in (q, [mirrored(h, x) for x in q[::-1]]):
        u = h.zeros((1, 12))
        for e, x in enumerate([w[0], w[0], w[1], w[1]]):
            for k in range(3):
                u[0, 3 * e + k] = x.U[k]
        sol.u = u
        sol.sensors.sensing(sol)
        res.append([int(x) for x in sol.sensors.sensors])
    h.true("contact marks mirrored %s" % (res,), res[0] == res[1][::-1])


def inst_mirror(tier):
    out = []
    gs = ("7/5",) if tier == "quick" else ("7/5", "3")
    for g in gs:
        out.append(I(B + "mirror_interior", dict(g=g)))
        out.append(I(B + "mirror_speed", dict(g=g)))
        out.append(I(B + "mirror_contact", dict(g=g), budget=280))
        for s in ("riemann_rusanov", "riemann_roe"):
            out.append(I(B + "mirror", dict(solver=s, g=g), budget=280))
        for k in ("right", "left", "collide", "contact", "uniform"):
            out.append(I(B + "mirror", dict(solver="riemann_godunov", g=g, kind=k), budget=280))
    for g in ("3", "7/5"):
        for k in ("rare", "rarel", "rarer"):
            out.append(I(B + "mirror", dict(solver="riemann_godunov", g=g, kind=k), budget=280))
    return out


_box = "densities in [1/4,4], sound speeds in [1/2,2], |v|<=3 (4 for supersonic pairs)"
PROPS = {
    "F01": dict(instances=inst_f01, bounds="all states with " + _box + " (and, in the instances named wide, densities in [1e-6,1e6], sound speeds in [1/1000,2000], |v|<=2000); gamma = 7/5, 5/3, 2, 3, and (Rusanov, Roe, interior flux) every gamma in [1.1,3]; 1..3 interfaces; tolerance 1e-7"),
    "F02": dict(instances=inst_f02, bounds="batches of 2..40 interfaces: all states with " + _box + " (wide: densities in [1e-6,1e6], sound speeds in [1/1000,2000], |v|<=2000) beside fixed interfaces (both positions, extreme ones included), Rusanov with every interface free; "
                "Godunov for supersonic, uniform, contact and one- or two-rarefaction interfaces among which sit fixed interfaces with shocks, very hot and very cold states (11 and 40 interfaces; roots of constants taken to 40 digits there)", outside="Godunov interfaces with a shock between arbitrary states (the fixed-point iteration is not encodable within reach)"),
    "F03": dict(instances=inst_f03, bounds="all pairs with " + _box + " (and, in the instances named wide, densities in [1e-6,1e6], sound speeds in [1/1000,2000], |v|<=2000), gamma 7/5, 5/3, 3, 11/10; tolerance 1e-7"),
    "F04": dict(instances=inst_f04, bounds="all contacts with densities in [1/16,16], |v|<=3, p in [1/(4 gamma),4/gamma] (wide: densities in [1e-6,1e6], |v|<=2000, p in [1e-6/gamma,1e6/gamma]); gamma 7/5, 3 (5/3), Roe also every gamma in [1.1,3]; tolerance 1e-7"),
    "F05": dict(instances=inst_f05, bounds="all stationary shocks with density ratio in [1.21, min(4, 0.95 (gamma+1)/(gamma-1))] (up to 5.76 for gamma 7/5, 16 for 11/10), upstream density in [1/4,4], velocity in [1/2,3]; gamma 7/5, 3, 5/3 and every gamma in [1.1,3]; tolerance 1e-6"),
    "F06": dict(instances=inst_f06, bounds="all states with " + _box + " (and, in the instances named wide, densities in [1e-6,1e6], sound speeds in [1/1000,2000], |v|<=2000), 2 and 3 cells, gamma 7/5, 3, 5/3 and every gamma in [1.1,3]; positivity of the internal energy through the solver-decided convex decomposition of the real update",
                outside="the final step (a convex combination of admissible states is admissible) is mathematics, not checked"),
    "F07": dict(instances=inst_f07, bounds="all pairs with " + _box + ", velocity factors and square roots of density factors in [1/2,2] times 1 and 1e+-4; gamma 7/5 and 3 (thorough 5/3); tolerance 1e-7"),
    "F09": dict(instances=inst_f09, bounds="all pairs of states joined by a contact and no, one or two rarefactions (pressure ratio of each up to 2^(2 gamma/(gamma-1)), sonic points included), "
                "middle sound speeds ratio free, outer sound speeds in [1/2,2], middle velocity in [-2,2]; gamma 7/5, 5/3, 2 and 3; tolerance 1e-6; mass flux through a shock (pressure ratio up to 5) or rarefaction from a given middle pressure; "
                "pairs with shocks met subsonically (shock/shock, shock/rarefaction, shock/nothing; pressure ratios up to 3.3 for gamma 3 and 4.7 for 7/5; tolerance 1e-4); "
                "six given pairs (up to twenty-odd iterations) before, after and around one arbitrary supersonic or undisturbed interface, the iteration itself executed (gamma 7/5, 5/3, 2; thorough 1.1 and 3)",
                stubs="f09_waves only: the fixed-point iteration has no closed form for shocks, so its mass-flux helper (decided by f09_massflux) returns the exact mass flux of each wave; counterexamples and witnesses run on the unmodified code",
                outside="convergence of the fixed-point iteration when a shock is present, beyond the given pairs; shocks met supersonically"),
    "F08": dict(instances=inst_f08, bounds="all states with " + _box + ", 1..4 cells (thorough 5), also velocities up to 50 and densities and sound speeds in [1/50,20], one such arbitrary cell in domains of 12 to 1200 cells, arbitrary higher modes; gamma 7/5, 3, 5/3 and every gamma in [1.1,3]"),
    "F10": dict(instances=inst_f10, bounds="one interface, pairs with one acoustic speed within 1/10, 1/1000 and 1e-5 of zero on both sides (equal sound speeds, densities in [1/4,4] to 1; tolerance 1e-9), all pairs of states with " + _box + ", also velocities up to 50 and densities and sound speeds in [1/50,20]; gamma 7/5, 3, 5/3, 2 and every gamma in [1.1,3]; tolerance 1e-7"),
}
