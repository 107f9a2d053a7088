"""S01..S09: the spatial operator."""
from fractions import Fraction as Fr

import numpy as np

from symx.harness import Instance as I
from .common import *

B = "spatial:"


# ------------------------------------------------------------------ S01
def ref_residual(h, sol, ub, p, N, dx, q, fl, traces):
    """Weak form written out: rows = modes, columns = interior cells."""
    F = sol.N_F
    xs, ws = gauss(p + 1)
    out = {}
    faces = {}
    for k in range(N + 1):                       # face between column cells k and k+1
        ul, ur = traces(k)
        faces[k] = [q(ul, ur, f) for f in range(F)]
    for e in range(1, N + 1):
        vals = [node_values(h, ub, p, e * F + f, xs) for f in range(F)]
        fg = [[fl([vals[i][g] for i in range(F)], f) for g in range(p + 1)] for f in range(F)]
        for f in range(F):
            for n in range(p + 1):
                D = pder(list(legendre(n)))
                s = 0
                for g in range(p + 1):
                    c = ws[g] * pval(D, xs[g])
                    if c:
                        s = s + fg[f][g] * h.const(c)
                s = s - faces[e][f]
                s = s + faces[e - 1][f] if n % 2 == 0 else s - faces[e - 1][f]
                out[n, e, f] = s * h.const(Fr(2 * n + 1, 2)) * 2 / dx
    return out


def s01(h, system, p, N, bc="periodic", stub=True, riemann="roe", enh="", ic="", domain=False):
    F = nf(system)
    st = Stubs(h, F)
    if stub:
        install_stubs(h, system, st)
        q, fl = st.q, st.fl
    else:
        q = lambda ul, ur, f: ul[f]
        fl = lambda u, f: u[f]
    sol = make_solution(h, system, p, N, (bc, bc), riemann, enh, ic=ic)
    L = h.const(Fr(LENGTH.get(ic, 2)))
    if domain:                                   # any other domain
        A, L = h.real("A", -5, 5), h.real("L", Fr(1, 8), 20)
        if not hasattr(sol, "setup_common_ic"):
            h.skip("no setup_common_ic")
        sol.setup_common_ic(lambda x: [1.0] * F, A, A + L)
    dg = h.mod("dg1d.dg").DG(sol)
    u0 = fill(h, sol)
    ub = with_ghosts(h, u0, F, (bc, bc))
    R = dg.residual(sol)
    if enh:
        en = sol.enhance

        def traces(k):
            L, Rt = [], []
            for f in range(F):
                a, b = k * F + f, (k + 1) * F + f
                L.append(sum(en.alphaL[i] * ub[i, a] + en.alphaR[i] * ub[i, b] for i in range(p + 1)))
                Rt.append(sum(en.betaL[i] * ub[i, a] + en.betaR[i] * ub[i, b] for i in range(p + 1)))
            return L, Rt
    else:
        def traces(k):
            return ([trace(ub, p, k * F + f, +1) for f in range(F)], [trace(ub, p, (k + 1) * F + f, -1) for f in range(F)])
    ref = ref_residual(h, sol, ub, p, N, L * h.const(Fr(1, N)), q, fl, traces)
    for (n, e, f), v in sorted(ref.items()):
        h.eq("R[mode %d, cell %d, field %d]" % (n, e, f), R[n, e * F + f], v, tol=1e-8)


LENGTH = {"simplew": 8, "shuoshe": 10}


def inst_s01(tier):
    out = []
    big = tier != "quick"
    for p in (0, 2) if not big else (0, 1, 2, 4):
        for ic in ("simplew", "shuoshe"):
            out.append(I(B + "s01", dict(system="euler", p=p, N=2, bc="zerograd", ic=ic)))
        out.append(I(B + "s01", dict(system="advection", p=p, N=3, domain=True)))
        out.append(I(B + "s01", dict(system="euler", p=p, N=2, bc="zerograd", domain=True)))
    for p in range(0, 8 if not big else 10):
        for N in ([1, 2, 3] if p < 4 else [2]) + ([7] if p == 1 or big else []) + ([40] if p in (0, 1, 3, 7) or big else []):
            out.append(I(B + "s01", dict(system="advection", p=p, N=N, stub=False)))
            out.append(I(B + "s01", dict(system="advection", p=p, N=N, bc="zerograd", stub=True)))
    for p in range(0, 6 if not big else 8):
        for N in (1, 2, 3) if p < 3 or big else (2,):
            for bc in ("periodic", "zerograd"):
                out.append(I(B + "s01", dict(system="euler", p=p, N=N, bc=bc)))
    for p in (8, 9, 10) if not big else (11, 12, 13):
        out.append(I(B + "s01", dict(system="advection", p=p, N=2, stub=False)))
        out.append(I(B + "s01", dict(system="advection", p=p, N=3, bc="zerograd", stub=True)))
    for p in (6, 7, 8) if not big else (8, 9, 10):
        out.append(I(B + "s01", dict(system="euler", p=p, N=2, bc="zerograd" if p % 2 else "periodic")))
    for p, N in ((0, 600), (1, 260)) if not big else ((0, 2500), (1, 1100), (2, 300)):
        for bc in ("periodic", "zerograd"):
            out.append(I(B + "s01", dict(system="advection", p=p, N=N, bc=bc, stub=False)))
    out.append(I(B + "s01", dict(system="euler", p=0, N=400 if not big else 1100)))
    out.append(I(B + "s01", dict(system="euler", p=1, N=60 if not big else 130)))
    out.append(I(B + "s01", dict(system="euler", p=2, N=9 if not big else 40, bc="zerograd")))
    for p, N in ((0, 3), (1, 3), (3, 2)):
        out += sizes(B + "s01", dict(system="advection", p=p, N=N, bc="zerograd" if p == 1 else "periodic", stub=False))
    for p, enh in ((0, "icb 0"), (1, "icb 0"), (1, "icb 1 0"), (2, "icb 0 1"), (2, "icb 0 2"), (3, "icb 0 1 2"), (4, "icb 0 1"), (3, "icb 3")):
        out.append(I(B + "s01", dict(system="advection", p=p, N=3, enh=enh)))
        out.append(I(B + "s01", dict(system="euler", p=p, N=2, bc="zerograd", enh=enh)))
    return out



# ------------------------------------------------------------------ helpers for whole steps
class Deck:
    def __init__(self, rk, T, cfl=0.4, nout=2):
        self.rk, self.finaltime, self.cfl, self.nout = rk, T, cfl, nout
        self.limiting = ''
        self.sensor_thresholds = []


class NoLimiter:
    def limit(self, sol):
        pass


class UFLimiter:
    """Any limiter that keeps cell averages: the higher modes of every cell become
    arbitrary functions of the cell and its two neighbours."""

    def __init__(self, h):
        self.h = h

    def limit(self, sol):
        h, F = self.h, sol.N_F
        sol.apply_bc()
        new = sol.u.copy()
        ns, n = sol.u.shape
        for j in range(F, n - F):
            args = [sol.u[i, k] for k in (j - F, j, j + F) for i in range(ns)]
            for i in range(1, ns):
                new[i, j] = h.uf("lim%d" % i, args, -1, 1)
        sol.u = new
        sol.apply_bc()


def one_step(h, sol, rk, T, limiter, dgs=None):
    """One complete step of size T through the real integrator."""
    sol.printer = lambda nout, dt: None
    dgs = dgs or h.mod("dg1d.dg").DG(sol)
    h.mod("dg1d.rk").integrate(sol, Deck(rk, T), dgs, limiter)
    return sol


def stub_speed(h, system, v=1.0):
    """Constant wave speed, so that the stable step is a known number."""
    h.mod("dg1d.%s_physics" % system).max_wave_speed = lambda u: v


RKS = ["rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14", "low_storage_rk4"]


# ------------------------------------------------------------------ S02
def s02(h, system, p, N, bc, enh=""):
    F = nf(system)
    st = Stubs(h, F)
    install_stubs(h, system, st)
    sol = make_solution(h, system, p, N, (bc, bc), "roe", enh)
    dg = h.mod("dg1d.dg").DG(sol)
    u0 = fill(h, sol)
    ub = with_ghosts(h, u0, F, (bc, bc))
    R = dg.residual(sol)
    dx = h.const(Fr(2, N))
    for f in range(F):
        tot = 0
        for e in range(1, N + 1):
            tot = tot + R[0, e * F + f] * dx
        if bc == "periodic":
            h.eq("d/dt total of field %d" % f, tot, 0, tol=1e-8)
        elif not enh:
            qs = []
            for k in (0, N):
                ul = [trace(ub, p, k * F + i, +1) for i in range(F)]
                ur = [trace(ub, p, (k + 1) * F + i, -1) for i in range(F)]
                qs.append(st.q(ul, ur, f))
            h.eq("d/dt total of field %d" % f, tot, qs[0] - qs[1], tol=1e-8)


def s02_step(h, system, p, N, rk, lim):
    F = nf(system)
    st = Stubs(h, F)
    install_stubs(h, system, st)
    stub_speed(h, system)
    sol = make_solution(h, system, p, N, ("periodic", "periodic"))
    u0 = fill(h, sol)
    T = h.real("T", Fr(1, 1000), Fr(1, 100))
    one_step(h, sol, rk, T, UFLimiter(h) if lim else NoLimiter())
    for f in range(F):
        a = b = 0
        for e in range(1, N + 1):
            a = a + u0[0, e * F + f]
            b = b + sol.u[0, e * F + f]
        h.eq("total of field %d after one %s step" % (f, rk), b, a, tol=1e-8)


def inst_s02(tier):
    big = tier != "quick"
    out = []
    for system in ("advection", "euler"):
        for p in range(0, 6 if not big else 8):
            for N in (1, 2, 5) + ((17,) if p < 3 or big else ()):
                for bc in ("periodic", "zerograd"):
                    out.append(I(B + "s02", dict(system=system, p=p, N=N, bc=bc)))
        for p in (6, 7, 8, 10) if not big else (8, 9, 10, 11, 12):
            out.append(I(B + "s02", dict(system=system, p=p, N=2, bc="periodic" if p % 2 else "zerograd")))
            out.append(I(B + "s02", dict(system=system, p=p, N=3, bc="zerograd" if p % 2 else "periodic")))
        for p, enh in ((1, "icb 0"), (2, "icb 0 1"), (3, "icb 0 2"), (4, "icb 1 0")):
            out.append(I(B + "s02", dict(system=system, p=p, N=3, bc="periodic", enh=enh)))
        for rk in RKS:
            for lim in (0, 1):
                out.append(I(B + "s02_step", dict(system=system, p=1, N=2 if system == "euler" else 3, rk=rk, lim=lim)))
        for p in range(0, 7):
            out.append(I("limiting:s02_limited", dict(system=system, p=p, N=4, pattern=[1, 0, 2, 1])))
        out.append(I("limiting:s02_limited", dict(system=system, p=1, N=1, pattern=[1])))
        for rk in ("rk3", "rk4") if not big else RKS:
            out.append(I("limiting:s02_limited", dict(system=system, p=1, N=2, pattern=[1, 2], rk=rk)))
        for p, N in ((0, 150), (1, 60)) if not big else ((0, 400), (1, 150)):
            out.append(I(B + "s02", dict(system=system, p=p, N=N, bc="periodic")))
            out.append(I("limiting:s02_limited", dict(system=system, p=1, N=N // 3, pattern=[1, 0, 2, 1, 0])))
    return out


# ------------------------------------------------------------------ S03
def admissible(h, sfx=""):
    """(rho, v, a) -> conserved variables; rho = r^2, p = rho a^2/gamma."""
    r = h.real("r" + sfx, Fr(1, 2), 2)
    v = h.real("v" + sfx, -3, 3)
    a = h.real("a" + sfx, Fr(1, 2), 2)
    g = h.const(Fr(7, 5))
    rho = r * r
    p = rho * a * a / g
    E = p / (g - 1) + rho * v * v / 2
    return [rho, rho * v, E]


def s03(h, system, p, N, bc, riemann="roe", rk="", lim=False, enh="", scale=None):
    F = nf(system)
    stub_speed_needed = bool(rk)
    sol = make_solution(h, system, p, N, (bc, bc), riemann, enh, (0.1, 0.1) if lim else ())
    U = admissible(h) if system == "euler" else [h.real("c", -3, 3)]
    tol = Fr(1, 10 ** 7)
    if scale:
        # density and speed in other units
        r, c = Fr(scale[0]), Fr(scale[1])
        U = [U[0] * h.const(r), U[1] * h.const(r * c), U[2] * h.const(r * c * c)]
        tol = tol * r * min(c, 1) * c * c
    ns, n = sol.u.shape
    u = h.zeros((ns, n))
    for j in range(n):
        u[0, j] = U[j % F]
    sol.u = u
    if stub_speed_needed:
        sol.max_wave_speed = lambda: 1.0
    dgs = h.mod("dg1d.dg").DG(sol)
    if not rk and not lim:
        R = dgs.residual(sol)
        for j in range(F, n - F):
            for i in range(ns):
                h.eq("R[%d,%d]" % (i, j), R[i, j], 0, tol=tol)
        return
    limiter = h.mod("dg1d.limiting").Limiter("adaptive_hr" if lim else "", sol)
    if lim and not rk:
        limiter.limit(sol)
        for e in range(1, N + 1):
            h.true("sensor %d off" % e, sol.sensors.sensors[e] == 0)
    else:
        one_step(h, sol, rk, h.real("T", Fr(1, 1000), Fr(1, 100)) if system == "advection" else 0.01, limiter, dgs)
    for j in range(F, n - F):
        for i in range(ns):
            h.eq("u[%d,%d]" % (i, j), sol.u[i, j], U[j % F] if i == 0 else 0, tol=1e-7)


def inst_s03(tier):
    big = tier != "quick"
    out = []
    for p in range(0, 8 if not big else 12):
        for bc in ("periodic", "zerograd"):
            for N in (3,) + ((50,) if p < 3 or big else ()):
                out.append(I(B + "s03", dict(system="advection", p=p, N=N, bc=bc)))
    for bc in ("periodic", "zerograd"):
        for rm in ("roe", "rusanov", "godunov"):
            for p in range(0, 5 if not big else 8):
                out.append(I(B + "s03", dict(system="euler", p=p, N=2, bc=bc, riemann=rm), budget=240))
            out.append(I(B + "s03", dict(system="euler", p=1, N=5 if not big else 30, bc=bc, riemann=rm), budget=240))
        out.append(I(B + "s03", dict(system="euler", p=1, N=2, bc=bc, lim=True), budget=240))
        for rm in ("roe", "rusanov", "godunov"):
            for sc in (("1/1000000", "1"), ("10000", "1/1000"), ("1/1000", "1000")):
                out.append(I(B + "s03", dict(system="euler", p=0 if rm == "godunov" else 1, N=2, bc=bc, riemann=rm, scale=sc), budget=240))
        out.append(I(B + "s03", dict(system="advection", p=2, N=3, bc=bc, lim=True)))
    for rk in RKS:
        out.append(I(B + "s03", dict(system="advection", p=1, N=3, bc="periodic", rk=rk, lim=True)))
        out.append(I(B + "s03", dict(system="advection", p=2, N=2, bc="zerograd", rk=rk, lim=False)))
        if big or rk in ("rk3", "rk4", "rk5", "rk6", "low_storage_rk4"):
            out.append(I(B + "s03", dict(system="euler", p=0, N=2, bc="periodic", rk=rk, lim=False), budget=240))
    out.append(I(B + "s03", dict(system="advection", p=1, N=3, bc="periodic", enh="icb 0")))
    out.append(I(B + "s03", dict(system="euler", p=1, N=2, bc="zerograd", enh="icb 0", riemann="rusanov"), budget=240))
    return out


# ------------------------------------------------------------------ S04
def shifted(h, u, F, N, k):
    """Interior cells moved k cells to the right (cyclically); ghosts arbitrary."""
    v = u.copy()
    for e in range(N):
        t = (e + k) % N
        v[:, (1 + t) * F:(2 + t) * F] = u[:, (1 + e) * F:(2 + e) * F]
    return v


def cmp_shift(h, what, a, b, F, N, k, tol=1e-8):
    for e in range(N):
        t = (e + k) % N
        for i in range(a.shape[0]):
            for f in range(F):
                h.eq("%s[%d, cell %d, field %d]" % (what, i, e + 1, f), b[i, (1 + t) * F + f], a[i, (1 + e) * F + f], tol)


def s04_res(h, system, p, N, k, enh=""):
    F = nf(system)
    st = Stubs(h, F)
    install_stubs(h, system, st)
    sol = make_solution(h, system, p, N, enh=enh)
    s2 = make_solution(h, system, p, N, enh=enh)
    u0 = fill(h, sol)
    s2.u = shifted(h, u0, F, N, k)
    D = h.mod("dg1d.dg").DG
    R1 = D(sol).residual(sol).copy()
    R2 = D(s2).residual(s2).copy()
    cmp_shift(h, "R", R1, R2, F, N, k)


def stub_sensing(h, system, always=False):
    """Sensor stub: cell e is flagged iff an arbitrary function of the three averages around it is positive."""
    def sensing(sensors, thresholds, sol):
        F = sol.N_F
        for e in range(1, sol.N_E + 1):
            if always:
                sensors[e] = 1
                continue
            args = [sol.u[0, (e + d) * F + f] for d in (-1, 0, 1) for f in range(F)]
            if h.uf("sens", args, -1, 1) > 0:
                sensors[e] = 1
    h.mod("dg1d.%s_physics" % system).sensing = sensing


def s04_sensor(h, system, N, k, free, th=("1/10", "1/10")):
    """The real sensors on a periodic row of fixed cells with `free` arbitrary ones (a distinct fixed level elsewhere)."""
    F = nf(system)
    t = tuple(h.const(Fr(x)) for x in th)
    sol, s2 = make_solution(h, system, 0, N, thresholds=t), make_solution(h, system, 0, N, thresholds=t)
    if system == "euler":
        g = h.const(Fr(7, 5))
        h.mod("dg1d.constants").gamma = g
    u = h.zeros(sol.u.shape)
    for e in range(N):
        c = [Fr(1), Fr(1, 2), Fr(25, 14) + Fr(1, 8)] if system == "euler" else [Fr(1, 2)]
        q = [h.const(x) for x in c]
        if e in free:
            if system == "euler":
                r, v, a = h.real("r%d" % e, Fr(1, 2), 2), h.real("v%d" % e, -2, 2), h.real("a%d" % e, Fr(1, 2), 2)
                r2 = r * r
                q = [r2, r2 * v, r2 * a * a / (g * (g - 1)) + r2 * v * v / 2]
            else:
                q = [h.real("u%d" % e, -2, 2)]
        for f in range(F):
            u[0, (1 + e) * F + f] = q[f]
    sol.u, s2.u = u, shifted(h, u, F, N, k)
    for s in (sol, s2):
        s.apply_bc()
        s.sensors.sensing(s)
    for e in range(N):
        h.true("sensor of cell %d moves %s %s" % (e + 1, list(map(int, sol.sensors.sensors)), list(map(int, s2.sensors.sensors))),
               int(sol.sensors.sensors[1 + e]) == int(s2.sensors.sensors[1 + (e + k) % N]))


def stub_minmod(h):
    """minmod replaced by an arbitrary symmetric function of its arguments."""
    hook_minmod(h, lambda a, b: h.uf("mm", [a, b], -1, 1) + h.uf("mm", [b, a], -1, 1))


def s04_lim(h, system, p, N, k, sens="uf", mm="real"):
    F = nf(system)
    if sens == "uf":
        stub_sensing(h, system)
    elif sens == "all":
        stub_sensing(h, system, True)
    if mm == "uf":
        stub_minmod(h)
    sol = make_solution(h, system, p, N, thresholds=(0.1, 0.1))
    s2 = make_solution(h, system, p, N, thresholds=(0.1, 0.1))
    u0 = fill(h, sol)
    s2.u = shifted(h, u0, F, N, k)
    L = h.mod("dg1d.limiting").Limiter
    L("adaptive_hr", sol).limit(sol)
    L("adaptive_hr", s2).limit(s2)
    for e in range(N):
        t = (e + k) % N
        h.true("sensor of cell %d moves" % (e + 1), int(sol.sensors.sensors[1 + e]) == int(s2.sensors.sensors[1 + t]))
    cmp_shift(h, "limited", sol.u, s2.u, F, N, k)


def s04_step(h, system, p, N, k, rk, lim):
    F = nf(system)
    if system == "euler":
        install_stubs(h, system, Stubs(h, F))
    stub_speed(h, system)
    if lim:
        stub_sensing(h, system, True)
        stub_minmod(h)
    th = (0.1, 0.1) if lim else ()
    sol = make_solution(h, system, p, N, thresholds=th)
    s2 = make_solution(h, system, p, N, thresholds=th)
    u0 = fill(h, sol)
    s2.u = shifted(h, u0, F, N, k)
    T = h.const(Fr(1, 100))
    T = 0.01
    L = h.mod("dg1d.limiting").Limiter
    for s in (sol, s2):
        s.apply_bc()
        limiter = L("adaptive_hr" if lim else "", s)
        limiter.limit(s)
        one_step(h, s, rk, T, limiter)
    cmp_shift(h, "after one %s step" % rk, sol.u, s2.u, F, N, k, tol=1e-7)


def inst_s04(tier):
    big = tier != "quick"
    out = []
    for system in ("advection", "euler"):
        for p in range(0, 5 if not big else 8):
            for N, k in ((2, 1), (3, 1), (4, 2), (5, 4), (9, 4)):
                out.append(I(B + "s04_res", dict(system=system, p=p, N=N, k=k)))
        out.append(I(B + "s04_res", dict(system=system, p=1, N=4, k=1, enh="icb 0 1")))
        out.append(I(B + "s04_res", dict(system=system, p=8, N=3, k=2)))
        out.append(I(B + "s04_res", dict(system=system, p=1, N=50, k=23)))
        out.append(I(B + "s04_res", dict(system=system, p=0, N=150, k=1)))
        for p, N in ((1, 2), (1, 3), (2, 2)) + (((2, 3), (3, 2)) if big else ()):
            if system == "advection":
                out.append(I(B + "s04_lim", dict(system=system, p=p, N=N, k=1), budget=300))
        for p, N, k in ((1, 3, 1), (2, 4, 3), (3, 3, 2)):
            out.append(I(B + "s04_lim", dict(system=system, p=p, N=N, k=k, sens="uf", mm="uf"), budget=300))
        for rk in RKS:
            for lim in (0, 1):
                if not big and (rk in ("rk12", "rk14") and system == "euler"):
                    continue
                out.append(I(B + "s04_step", dict(system=system, p=1, N=3, k=1, rk=rk, lim=lim), budget=300))
    out.append(I(B + "s04_lim", dict(system="advection", p=1, N=2, k=1, sens="real", mm="uf"), budget=300))
    for system in ("advection", "euler"):
        for N, k, free in ((4, 1, [3]), (4, 3, [0])) + (((5, 2, [3]), (4, 2, [1])) if big else ()):
            out.append(I(B + "s04_sensor", dict(system=system, N=N, k=k, free=free), budget=280, max_paths=4000))
    if big:
        out.append(I(B + "s04_lim", dict(system="advection", p=1, N=3, k=2, sens="real", mm="uf"), budget=900))
    return out


# ------------------------------------------------------------------ S05 (residual and limiter part)
def mirror_u(h, u, F, N):
    """Reverse the cells, flip momentum and odd modes."""
    v = u.copy()
    ns, n = u.shape
    for e in range(N + 2):
        for f in range(F):
            for i in range(ns):
                x = u[i, (N + 1 - e) * F + f]
                v[i, e * F + f] = -x if (f == 1) != (i % 2 == 1) else x
    return v


def mirror_flux_stub(h):
    """A linear flux pair with the parity of the Euler fluxes."""
    A = [[0, 1, 0], [Fr(1, 3), 0, Fr(2, 5)], [0, Fr(3, 7), 0]]

    def f(u, k):
        return sum((u[j] * h.const(A[k][j]) for j in range(3) if A[k][j]), 0)

    def q(ul, ur, k):
        return (f(ul, k) + f(ur, k)) * h.const(Fr(1, 2)) - (ur[k] - ul[k]) * h.const(Fr(5, 8))

    class S(Stubs):
        def q(self, a, b, k):
            return q(a, b, k)

        def fl(self, u, k):
            return f(u, k)
    return S(h, 3)


def s05_res(h, p, N, bc, enh=""):
    F = 3
    install_stubs(h, "euler", mirror_flux_stub(h))
    sol = make_solution(h, "euler", p, N, (bc, bc), enh=enh)
    s2 = make_solution(h, "euler", p, N, (bc, bc), enh=enh)
    u0 = fill(h, sol)
    s2.u = mirror_u(h, u0, F, N)
    D = h.mod("dg1d.dg").DG
    R1 = D(sol).residual(sol).copy()
    R2 = D(s2).residual(s2).copy()
    for e in range(1, N + 1):
        for f in range(F):
            for i in range(p + 1):
                x = R1[i, (N + 1 - e) * F + f]
                # mass and energy are even, momentum odd
                h.eq("mirrored R[%d, cell %d, field %d]" % (i, e, f), R2[i, e * F + f], -x if (f == 1) != (i % 2 == 1) else x, tol=1e-8)


def s05_lim(h, p, mm="real", scale=1):
    """Reconstruction of one cell of a mirrored profile.  mm="odd": minmod replaced by an arbitrary
    odd and symmetric function (minmod is one, see s05_minmod)."""
    from .limiting import limit_cell
    if mm == "odd" and h.symbolic:
        f = lambda a, b: h.uf("mm", [a, b], -scale, scale)
        hook_minmod(h, lambda a, b: f(a, b) + f(b, a) - f(-a, -b) - f(-b, -a))
    u = [h.arr("u%d" % k, p + 1) * h.const(scale) for k in range(3)]

    def mir(w):
        return h.array([w[i] if i % 2 == 0 else -w[i] for i in range(p + 1)])
    a = limit_cell(h, p, u[1], u[0], u[2])
    b = limit_cell(h, p, mir(u[1]), mir(u[2]), mir(u[0]))
    for i in range(p + 1):
        h.eq("mirrored limited mode %d" % i, b[i], a[i] if i % 2 == 0 else -a[i], tol=1e-8 * max(1, scale))


def s05_minmod(h):
    m = h.mod("dg1d.limiting")
    if not hasattr(m, "scalar_minmod"):
        h.skip("the limiter has no separate minmod function")
    a, b = h.real("a", -2, 2), h.real("b", -2, 2)
    x = m.scalar_minmod(a, b)
    h.eq("minmod is symmetric", m.scalar_minmod(b, a), x, tol=0)
    h.eq("minmod is odd", m.scalar_minmod(-a, -b), -x, tol=0)


def inst_s05(tier):
    big = tier != "quick"
    out = []
    for bc in ("periodic", "zerograd"):
        for p in range(0, 6 if not big else 10):
            for N in (1, 2, 5) if p < 4 or big else (2,):
                out.append(I(B + "s05_res", dict(p=p, N=N, bc=bc)))
        out.append(I(B + "s05_res", dict(p=1, N=40, bc=bc)))
        out.append(I(B + "s05_res", dict(p=2, N=3, bc=bc, enh="icb 0 1")))
        out.append(I(B + "s05_res", dict(p=3, N=2, bc=bc, enh="icb 0 1 2")))
    for p in range(1, 3 if not big else 5):
        out.append(I(B + "s05_lim", dict(p=p), budget=300 if p < 3 else 2000, snap=True, max_paths=20000))
    for p in (1, 2):
        out.append(I(B + "s05_lim", dict(p=p, scale=10 ** 8), budget=300, snap=True, max_paths=20000))
    for p in (3, 4):
        out.append(I(B + "s05_lim", dict(p=p, mm="odd", scale=10 ** 8), budget=300, snap=True))
    for p in range(2, 7):
        out.append(I(B + "s05_lim", dict(p=p, mm="odd"), budget=300, snap=True))
    out.append(I(B + "s05_minmod", {}))
    try:
        from . import fluxes
        out += fluxes.inst_mirror(tier)
    except ImportError:
        pass
    return out


# ------------------------------------------------------------------ S06
def s06(h, p, N):
    sol = make_solution(h, "advection", p, N)
    u0 = fill(h, sol)
    R = h.mod("dg1d.dg").DG(sol).residual(sol)
    E = 0
    J = 0
    dx = h.const(Fr(2, N))
    for e in range(1, N + 1):
        for n in range(p + 1):
            E = E + u0[n, e] * R[n, e] * dx / (2 * n + 1)
        left = e - 1 if e > 1 else N
        j = trace(u0, p, e, -1) - trace(u0, p, left, +1)
        J = J + j * j
    h.eq("energy rate = -(1/2) sum of squared jumps", E, -J / 2, tol=1e-8 if p < 4 and N < 20 else 1e-4)


def inst_s06(tier):
    out = []
    big = tier != "quick"
    for p in range(0, 15 if not big else 19):
        for N in (1, 2, 3, 6, 30) if not big else (1, 2, 3, 4, 5, 7, 12, 40):
            out.append(I(B + "s06", dict(p=p, N=N)))
    for N in (100, 400) if not big else (250, 1000):
        for p in (0, 1, 3):
            out.append(I(B + "s06", dict(p=p, N=N)))
    for p, N in ((0, 2), (1, 3), (2, 2), (5, 2)):
        out += sizes(B + "s06", dict(p=p, N=N), homog=2, exps=(-9, -4, 8))
    return out


# ------------------------------------------------------------------ S07
def poly_cell_coefs(h, c, e, N, p, A=-1, Bx=1):
    """Legendre coefficients in cell e (1-based) of sum_k c_k x^k on [A,Bx]."""
    dx = Fr(Bx - A, N)
    xc = A + dx * (Fr(2 * e - 1, 2))
    out = []
    for n in range(p + 1):
        s = 0
        for k, ck in enumerate(c):
            poly = pcompose([Fr(0)] * k + [Fr(1)], dx / 2, xc)
            w = leg_coefs(poly, max(p, k))[n]
            if w:
                s = s + ck * h.const(w)
        out.append(s)
    return out


def s07(h, p, N):
    sol = make_solution(h, "advection", p, N)
    c = [h.real("c%d" % k, -100, 100) for k in range(p + 1)]
    u = h.zeros(sol.u.shape)
    for e in range(1, N + 1):
        cc = poly_cell_coefs(h, c, e, N, p)
        for n in range(p + 1):
            u[n, e] = cc[n]
    sol.u = u
    R = h.mod("dg1d.dg").DG(sol).residual(sol)
    d = [c[k] * k for k in range(1, p + 1)] or [0]
    for e in range(2, N + 1):
        ref = poly_cell_coefs(h, d, e, N, p)
        for n in range(p + 1):
            h.eq("-du/dx mode %d cell %d" % (n, e), R[n, e], -ref[n], tol=1e-7)


def s07_enh(h, p, modes, N=3, system="advection"):
    """Enhanced face values of a global polynomial of degree p+k are exact."""
    F = nf(system)
    sol = make_solution(h, system, p, N, ("zerograd", "zerograd"), enh="icb " + " ".join(map(str, modes)))
    k = len(modes)
    u = h.zeros(sol.u.shape)
    cs = []
    for f in range(F):
        c = [h.real("c%d_%d" % (f, i), -100, 100) for i in range(p + k + 1)]
        cs.append(c)
        for e in range(1, N + 1):
            cc = poly_cell_coefs(h, c, e, N, p)
            for n in range(p + 1):
                u[n, e * F + f] = cc[n]
    sol.u = u
    uf = sol.evaluate_faces()
    for f in range(F):
        for e in range(1, N):                        # face between cells e and e+1
            x = Fr(-1) + Fr(2 * e, N)
            val = 0
            for i, ck in enumerate(cs[f]):
                val = val + ck * h.const(x ** i)
            h.eq("left trace at face %d field %d" % (e, f), uf[1, e * F + f], val, tol=1e-7)
            h.eq("right trace at face %d field %d" % (e, f), uf[0, (e + 1) * F + f], val, tol=1e-7)


def mode_sets(p, kmax=3):
    """Admissible sets: the resulting interpolation matrix is regular."""
    from itertools import combinations
    out = []
    for k in range(1, min(kmax, p + 1) + 1):
        for c in combinations(range(p + 1), k):
            if _regular(p, c):
                out.append(list(c))
    return out


def _regular(p, modes):
    """det of the neighbour-moment matrix of the added modes is well away from 0."""
    k = len(modes)
    M = np.zeros((k, k))
    for i, m in enumerate(modes):
        for j in range(k):
            ll = pcompose(list(legendre(p + 1 + j)), 1, 2)
            M[i, j] = float(pint(pmul(list(legendre(m)), ll), -1, 1) * Fr(2 * m + 1, 2))
    return np.linalg.matrix_rank(M) == k and np.linalg.cond(M) < 1e8


def inst_s07(tier):
    big = tier != "quick"
    out = []
    for p in range(0, 9):
        for N in (2, 3, 6) if not big else (2, 3, 4, 5, 6, 9, 20):
            out.append(I(B + "s07", dict(p=p, N=N)))
    for p in (0, 1, 2):
        out.append(I(B + "s07", dict(p=p, N=60)))
    for p in (0, 1, 3):
        out += sizes(B + "s07", dict(p=p, N=2))
    for p in range(0, 5 if not big else 6):
        for m in mode_sets(p):
            out.append(I(B + "s07_enh", dict(p=p, modes=m)))
    out.append(I(B + "s07_enh", dict(p=2, modes=[0, 1], system="euler")))
    out.append(I(B + "s07_enh", dict(p=2, modes=[0, 1], N=25)))
    out += sizes(B + "s07_enh", dict(p=1, modes=[0], N=3))
    out += sizes(B + "s07_enh", dict(p=2, modes=[0, 1], N=3))
    return out


# ------------------------------------------------------------------ S08
def s08(h, system, p, N, bcl, bcr):
    F = nf(system)
    sol = make_solution(h, system, p, N)
    # names assembled at run time: not the literals of the source file
    sol.bc_l = "".join(list(bcl))
    sol.bc_r = "".join(list(bcr))
    u0 = fill(h, sol)
    ref = with_ghosts(h, u0, F, (bcl, bcr))
    sol.apply_bc()
    for i in range(p + 1):
        for j in range(ref.shape[1]):
            h.eq("u[%d,%d]" % (i, j), sol.u[i, j], ref[i, j], tol=0)


def s08_dep(h, system, p, N, bcl, bcr, lim, mm="real"):
    """Same interior, different stale ghosts -> same residual / limited interior."""
    F = nf(system)
    install_stubs(h, system, Stubs(h, F))
    if lim:
        stub_sensing(h, system, mm == "uf")
        if mm == "uf":
            stub_minmod(h)
    th = (0.1, 0.1) if lim else ()
    outs = []
    sols = [make_solution(h, system, p, N, (bcl, bcr), thresholds=th) for _ in range(2)]
    u0 = fill(h, sols[0])
    u1 = u0.copy()
    for i in range(p + 1):
        for f in range(F):
            u1[i, f] = h.real("w_l_%d_%d" % (i, f), -100, 100)
            u1[i, u1.shape[1] - F + f] = h.real("w_r_%d_%d" % (i, f), -100, 100)
    sols[1].u = u1
    for s in sols:
        if lim:
            L = h.mod("dg1d.limiting").Limiter("adaptive_hr", s)
            L.limit(s)
            outs.append(s.u)
            ref = with_ghosts(h, s.u, F, (bcl, bcr))
            for i in range(p + 1):
                for j in list(range(F)) + list(range(ref.shape[1] - F, ref.shape[1])):
                    h.eq("ghost u[%d,%d] after limiting" % (i, j), s.u[i, j], ref[i, j], tol=0)
        else:
            outs.append(h.mod("dg1d.dg").DG(s).residual(s).copy())
    for i in range(p + 1):
        for j in range(F, outs[0].shape[1] - F):
            h.eq("%s[%d,%d]" % ("limited" if lim else "R", i, j), outs[1][i, j], outs[0][i, j], tol=1e-9)


def inst_s08(tier):
    big = tier != "quick"
    out = []
    combos = [(a, b) for a in ("periodic", "zerograd") for b in ("periodic", "zerograd")]
    for system in ("advection", "euler"):
        for bl, br in combos:
            for p in range(0, 5) if not big else range(0, 9):
                for N in (1, 2, 4, 6):
                    out.append(I(B + "s08", dict(system=system, p=p, N=N, bcl=bl, bcr=br)))
            for p, N in ((6, 3), (8, 2), (1, 40), (0, 500)) + (((12, 2), (1, 300)) if big else ()):
                out.append(I(B + "s08", dict(system=system, p=p, N=N, bcl=bl, bcr=br)))
            for p, N in ((0, 2), (1, 3), (2, 1), (5, 2), (0, 40), (1, 16)):
                out.append(I(B + "s08_dep", dict(system=system, p=p, N=N, bcl=bl, bcr=br, lim=0)))
            out.append(I(B + "s08_dep", dict(system=system, p=2, N=2, bcl=bl, bcr=br, lim=1, mm="uf")))
            if system == "advection":
                out.append(I(B + "s08_dep", dict(system=system, p=1, N=2, bcl=bl, bcr=br, lim=1), budget=300))
    return out


# ------------------------------------------------------------------ S09
def s09_res(h, system, p, N, bc, enh=""):
    """Two states through the same objects = second state through fresh objects."""
    F = nf(system)
    install_stubs(h, system, Stubs(h, F))
    sol = make_solution(h, system, p, N, (bc, bc), enh=enh)
    fresh = make_solution(h, system, p, N, (bc, bc), enh=enh)
    D = h.mod("dg1d.dg").DG
    dgs = D(sol)
    a = fill(h, sol, name="a")
    R1 = dgs.residual(sol)
    R1c = R1.copy()
    for i in range(p + 1):
        for j in range(F, sol.u.shape[1] - F):
            h.eq("interior u[%d,%d] untouched by the residual" % (i, j), sol.u[i, j], a[i, j], tol=0)
    b = fill(h, sol, name="b")
    R2 = dgs.residual(sol).copy()
    fresh.u = b.copy()
    R3 = D(fresh).residual(fresh).copy()
    sol.u = a.copy()
    R4 = dgs.residual(sol).copy()
    for i in range(p + 1):
        for j in range(F, sol.u.shape[1] - F):
            h.eq("second residual[%d,%d]" % (i, j), R2[i, j], R3[i, j], tol=1e-9)
            h.eq("repeated residual[%d,%d]" % (i, j), R4[i, j], R1c[i, j], tol=1e-9)


def s09_two(h, system, p, N, enh="", sensing=False):
    """Two problems in memory: evaluating one leaves the results of the other alone."""
    F = nf(system)
    install_stubs(h, system, Stubs(h, F))
    a, b = (make_solution(h, system, p, N, ("periodic", "zerograd"), enh=enh) for _ in range(2))
    D = h.mod("dg1d.dg").DG
    da, db = D(a), D(b)
    fill(h, a, name="a")
    keep = []
    for what, f in (("faces", a.evaluate_faces), ("nodes", a.collocate)):
        r = f()
        keep.append((what, r, r.copy()))
    fill(h, b, name="b")
    b.evaluate_faces(), b.collocate(), db.residual(b)
    for what, r, c in keep:
        for i in range(r.shape[0]):
            for j in range(F, r.shape[1] - F):
                h.eq("%s of the first problem [%d,%d]" % (what, i, j), r[i, j], c[i, j], tol=0)
    ra = da.residual(a)
    ca = ra.copy()
    db.residual(b)
    for i in range(p + 1):
        for j in range(F, ra.shape[1] - F):
            h.eq("residual of the first problem [%d,%d]" % (i, j), ra[i, j], ca[i, j], tol=0)


def s09_lim(h, system, p, N):
    F = nf(system)
    stub_sensing(h, system)
    stub_minmod(h)
    th = (0.1, 0.1)
    sol = make_solution(h, system, p, N, thresholds=th)
    fresh = make_solution(h, system, p, N, thresholds=th)
    LM = h.mod("dg1d.limiting").Limiter
    L = LM("adaptive_hr", sol)
    fill(h, sol, name="a")
    L.limit(sol)
    b = fill(h, sol, name="b")
    L.limit(sol)
    fresh.u = b.copy()
    LM("adaptive_hr", fresh).limit(fresh)
    for e in range(1, N + 1):
        h.true("sensor %d" % e, int(sol.sensors.sensors[e]) == int(fresh.sensors.sensors[e]))
    for i in range(p + 1):
        for j in range(F, sol.u.shape[1] - F):
            h.eq("second limiting[%d,%d]" % (i, j), sol.u[i, j], fresh.u[i, j], tol=1e-9)


def s09_copy(h, system, p, N, enh=""):
    """Scribbling over a copy never shows in the original, and the copy evaluates its own data."""
    F = nf(system)
    install_stubs(h, system, Stubs(h, F))
    sol = make_solution(h, system, p, N, ("zerograd", "zerograd"), enh=enh, thresholds=(0.1, 0.1))
    fresh = make_solution(h, system, p, N, ("zerograd", "zerograd"), enh=enh, thresholds=(0.1, 0.1))
    D = h.mod("dg1d.dg").DG
    a = fill(h, sol, name="a")
    R1 = D(sol).residual(sol).copy()
    c = sol.copy()
    b = h.arr("b", sol.u.shape)
    c.u[...] = b
    fresh.u = b.copy()
    Rc = D(c).residual(c).copy()
    Rf = D(fresh).residual(fresh).copy()
    for i in range(p + 1):
        for j in range(F, sol.u.shape[1] - F):
            h.eq("copy evaluates its own data [%d,%d]" % (i, j), Rc[i, j], Rf[i, j], tol=1e-9)
    # scribble over every array and list reachable from the copy
    seen = set()

    def scribble(o, depth=0):
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            o[...] = 7
        elif isinstance(o, list):
            for v in o:
                scribble(v, depth + 1)
            o.append("scribble")
        elif isinstance(o, dict):
            for v in list(o.values()):
                scribble(v, depth + 1)
        elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
            for v in list(vars(o).values()):
                scribble(v, depth + 1)
    fields = list(sol.keywords["fields"])
    params = list(sol.params)
    scribble(c)
    R2 = D(sol).residual(sol).copy()
    h.true("field names not shared", list(sol.keywords["fields"]) == fields)
    h.true("parameters not shared", list(sol.params) == params)
    h.true("sensors not shared", all(int(s) == 0 for s in sol.sensors.sensors))
    for i in range(p + 1):
        for j in range(F, sol.u.shape[1] - F):
            h.eq("original data [%d,%d] after scribbling over its copy" % (i, j), sol.u[i, j], a[i, j], tol=0)
            h.eq("original residual [%d,%d] after scribbling over its copy" % (i, j), R2[i, j], R1[i, j], tol=1e-9)


def s09_data(h, p, N):
    """copy_data_only copies values, not references."""
    s1 = make_solution(h, "advection", p, N)
    s2 = make_solution(h, "advection", p, N)
    a = fill(h, s1, name="a")
    s2.copy_data_only(s1)
    s2.u[...] = h.arr("b", a.shape)
    for i in range(p + 1):
        for j in range(a.shape[1]):
            h.eq("source data [%d,%d]" % (i, j), s1.u[i, j], a[i, j], tol=0)
    s2.copy_data_only(s1)
    s2.smart_axpy(0.5, a)
    for i in range(p + 1):
        for j in range(a.shape[1]):
            h.eq("source data [%d,%d] after axpy" % (i, j), s1.u[i, j], a[i, j], tol=0)
            h.eq("axpy [%d,%d]" % (i, j), s2.u[i, j], a[i, j] * h.const(Fr(3, 2)), tol=1e-12)


def inst_s09(tier):
    big = tier != "quick"
    out = []
    for system in ("advection", "euler"):
        for p in range(0, 5) if not big else range(0, 8):
            for bc in ("periodic", "zerograd"):
                out.append(I(B + "s09_res", dict(system=system, p=p, N=2, bc=bc)))
        out.append(I(B + "s09_res", dict(system=system, p=5, N=2, bc="zerograd")))
        out.append(I(B + "s09_res", dict(system=system, p=1, N=12, bc="periodic")))
        out.append(I(B + "s09_res", dict(system=system, p=0, N=60, bc="zerograd")))
        out.append(I(B + "s09_res", dict(system=system, p=1, N=3, bc="zerograd", enh="icb 0 1")))
        for enh in ("", "icb 0", "icb 1 0"):
            out.append(I(B + "s09_two", dict(system=system, p=1, N=3, enh=enh)))
        out.append(I(B + "s09_two", dict(system=system, p=4, N=2)))
        out.append(I(B + "s09_lim", dict(system=system, p=1, N=2)))
        out.append(I(B + "s09_lim", dict(system=system, p=2, N=2)))
        out.append(I(B + "s09_lim", dict(system=system, p=3, N=3)))
        if big:
            out.append(I(B + "s09_lim", dict(system=system, p=4, N=4)))
        out.append(I(B + "s09_copy", dict(system=system, p=1, N=2)))
        out.append(I(B + "s09_copy", dict(system=system, p=2, N=2, enh="icb 0")))
    out.append(I(B + "s09_data", dict(p=1, N=2)))
    return out


PROPS = {
    "S01": dict(instances=inst_s01,
                bounds="all coefficients in [-100,100] (arbitrary stale ghost cells too; advection also in +-1e-7 and +-1e10), flux values in [-2,2]; advection: orders 0..10 (thorough 0..13), "
                       "1..3,7,40 elements and 600 (order 0), 260 (order 1) (thorough 2500, 1100); Euler: orders 0..8 (thorough 0..10), 1..3 elements and 400 (thorough 1100) (order 0), 60 (order 1), 9 (order 2) (thorough 130, 40); periodic and zero-gradient; every domain with left end in [-5,5] and length in [1/8,20]; tolerance 1e-8",
                stubs="Riemann and interior flux functions are uninterpreted functions of the local states (congruence up to 1e-9 in the coefficients); "
                      "the advection instances also run the real fluxes"),

    "S02": dict(instances=inst_s02,
                bounds="all coefficients in [-100,100], orders 0..10 (thorough 0..12), 1,2,3,5,17 elements and 150 (order 0), 60 (order 1) (thorough 400, 150); whole steps: order 1, 2..3 elements, step size in [1/1000,1/100], every scheme; real limiter: orders 0..6, 1,2,4,20,50 elements",
                stubs="uninterpreted flux functions; in whole steps a constant wave speed and, with limiting, an arbitrary average-preserving limiter, and the real limiter with prescribed marks"),
    "S03": dict(instances=inst_s03,
                bounds="all uniform states with rho in [1/4,4], |v|<=3, sound speed in [1/2,2], gamma=7/5, also with densities times 1e-6, 1e-3, 1e4 and speeds times 1, 1e3, 1e-3; orders 0..7 advection, 0..4 Euler (thorough 0..11/0..7), 2..5 elements and 50 (thorough 30 Euler); tolerance 1e-7",
                stubs="constant wave speed in whole steps"),
    "S04": dict(instances=inst_s04,
                bounds="all coefficients in [-100,100], all shifts by symmetry of the instances (shift by k of N), orders 0..4, 8 (thorough 0..7), 2..9 elements and 150 (order 0), 50 (order 1); real sensors with one free cell; limiter order 1..3, 2..4 elements; whole steps order 1, 3 elements",
                stubs="uninterpreted flux functions, uninterpreted sensor decision per cell, uninterpreted minmod where stated in the instance name (mm=uf), constant wave speed"),
    "S05": dict(instances=inst_s05,
                bounds="residual: all coefficients in [-100,100], orders 0..5 (thorough 0..9), 1..5 elements and 40 (order 1); reconstruction: all cell polynomials in [-100,100], order 1, 2 (thorough 4; orders 1, 2 also times 1e8) with the real minmod, orders 2..6 with an arbitrary odd one (orders 3, 4 also times 1e8); fluxes: see the instances",
                stubs="residual instances use one linear flux pair with the parity of the Euler fluxes (the parity of the real fluxes is decided by the flux instances)"),
    "S06": dict(instances=inst_s06, bounds="all coefficients in [-100,100] (and +-1e-7, +-1e-2, +-1e10 relative to the square of the size), orders 0..14 with 1,2,3,6,30 elements and orders 0,1,3 with 100, 400 (thorough: orders 0..18 with up to 40 elements, 250 and 1000 elements); tolerance 1e-8 (orders 0..3, fewer than 20 elements), else 1e-4"),
    "S07": dict(instances=inst_s07, bounds="all polynomials with coefficients in [-100,100] (and +-1e-7, +-1e10), orders 0..8, 2,3,6 elements (thorough up to 20) and 60 (orders 0..2); enhancement sets of at most 3 regular modes, orders 0..4 (thorough 5); tolerance 1e-7"),
    "S08": dict(instances=inst_s08, bounds="all interior and stale ghost coefficients in [-100,100], orders 0..4,6,8 (thorough 0..8, 12), 1,2,4,6,40,500 elements, all four boundary combinations; residual dependence with up to 40 elements",
                stubs="uninterpreted flux functions, sensors (per-cell arbitrary decision) and, where mm=uf, minmod"),
    "S09": dict(instances=inst_s09, bounds="two arbitrary consecutive states, coefficients in [-100,100], orders 0..5 (thorough 0..7), 2..3, 12, 60 elements, both systems; also two problems of different order, size or system held in memory at once",
                stubs="uninterpreted flux functions, sensor decisions and minmod"),
}
