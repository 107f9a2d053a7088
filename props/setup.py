"""I01..I05: initial data, files, decks and configuration."""
import os
import sys
from fractions import Fraction as Fr

import numpy as np

from symx.harness import Instance as I
from .common import *
from .spatial import Deck, NoLimiter

B = "setup:"


# ------------------------------------------------------------------ I01
def mesh_checks(h, sol, A, L, N):
    h.true("number of elements", int(sol.N_E) == N)
    h.true("mesh size", len(sol.x) == N + 1 and len(sol.xc) == N)
    h.eq("cell size", sol.dx, L * h.const(Fr(1, N)))
    for e in range(N + 1):
        h.eq("edge %d" % e, sol.x[e], A + L * h.const(Fr(e, N)))
    for e in range(N):
        h.eq("centroid %d" % e, sol.xc[e], A + L * h.const(Fr(2 * e + 1, 2 * N)))


def start(h, system, p, N, wide=False):
    sol = make_solution(h, system, p, 1)
    if not hasattr(sol, "setup_common_ic"):
        h.skip("no setup_common_ic")
    sol.params = ["%d" % N]
    A = h.real("A", -10 if wide else -2, 10 if wide else 2)
    L = h.real("L", Fr(1, 8), 60 if wide else 4)
    return sol, A, L


def i01_poly(h, system, p, N, wide=False):
    """Polynomial profiles are reproduced exactly."""
    sol, A, L = start(h, system, p, N, wide)
    F = nf(system)
    cmax = 100 if p < 4 else 1
    tol = 1e-8 if p < 7 else 1e-7 if p < 10 else 1e-5
    c = [[h.real("c_%d_%d" % (f, k), -cmax, cmax) for k in range(p + 1)] for f in range(F)]

    def prof(f, x):
        r = 0
        for k in range(p, -1, -1):
            r = r * x + c[f][k]
        return r
    sol.setup_common_ic(lambda x: [prof(f, x) for f in range(F)], A, A + L)
    mesh_checks(h, sol, A, L, N)
    h.true("solution array", sol.u.shape == (p + 1, (N + 2) * F))
    for e in range(N):
        m, r = A + L * h.const(Fr(2 * e + 1, 2 * N)), L * h.const(Fr(1, 2 * N))
        for f in range(F):
            # f(m + r*xi) = sum_k c_k (m + r xi)^k, projected on P_n
            mono = []
            for j in range(p + 1):
                t = 0
                for k in range(j, p + 1):
                    b = 1
                    for q in range(j):
                        b = b * (k - q) // (q + 1)
                    s = c[f][k] * b
                    for _ in range(k - j):
                        s = s * m
                    for _ in range(j):
                        s = s * r
                    t = t + s
                mono.append(t)
            for n in range(p + 1):
                v = 0
                for j in range(p + 1):
                    w = leg_coefs([Fr(0)] * j + [Fr(1)], p)[n]
                    if w:
                        v = v + mono[j] * h.const(w)
                h.eq("coefficient %d of cell %d, field %d" % (n, e, f), sol.u[n, (e + 1) * F + f], v, tol=tol)
    for i in range(p + 1):
        h.eq("inverse mass %d" % i, sol.scaled_minv[i], h.const(Fr((2 * i + 1) * N)) / L, tol=1e-8)


def i01_nodes(h, system, p, N, wide=False):
    """Any profile is matched at the Gauss nodes of every cell."""
    sol, A, L = start(h, system, p, N, wide)
    F = nf(system)
    sol.setup_common_ic(lambda x: [h.uf("f%d" % f, [x]) for f in range(F)], A, A + L)
    mesh_checks(h, sol, A, L, N)
    xs, _ = gauss(p + 1)
    for e in range(N):
        m, r = A + L * h.const(Fr(2 * e + 1, 2 * N)), L * h.const(Fr(1, 2 * N))
        for f in range(F):
            v = node_values(h, sol.u, p, (e + 1) * F + f, xs)
            for g, x in enumerate(xs):
                h.eq("node %d of cell %d, field %d" % (g, e, f), v[g], h.uf("f%d" % f, [m + r * h.const(x)]), tol=1e-8)


def i01_coefs(h, p, N, A="-1", L="2", system="advection"):
    """Polynomial profiles (in the variable of the whole domain) on one fixed mesh: linear, hence high orders,
    many cells and any size of the data."""
    sol = make_solution(h, system, p, 1)
    if not hasattr(sol, "setup_common_ic"):
        h.skip("no setup_common_ic")
    sol.params = ["%d" % N]
    A, L, F = Fr(A), Fr(L), nf(system)
    c = [[h.real("c_%d_%d" % (f, k), -100, 100) for k in range(p + 1)] for f in range(F)]
    mid, half = h.const(A + L / 2), h.const(2 / L)

    def prof(f, x):
        y, r = (x - mid) * half, 0
        for k in range(p, -1, -1):
            r = r * y + c[f][k]
        return r
    sol.setup_common_ic(lambda x: [prof(f, x) for f in range(F)], float(A), float(A + L))
    h.true("solution array", sol.u.shape == (p + 1, (N + 2) * F))
    for e in range(N):
        m, r = Fr(2 * e + 1, N) - 1, Fr(1, N)
        for n in range(p + 1):
            w = [leg_coefs(pcompose([Fr(0)] * k + [Fr(1)], r, m), p)[n] for k in range(p + 1)]
            for f in range(F):
                v = 0
                for k in range(p + 1):
                    if w[k]:
                        v = v + c[f][k] * h.const(w[k])
                h.eq("coefficient %d of cell %d, field %d" % (n, e, f), sol.u[n, (e + 1) * F + f], v, tol=1e-8)


def inst_i01(tier):
    big = tier != "quick"
    out = []
    for p in range(7 if not big else 9):
        for N in (1, 2, 3, 5) if p < 4 or big else (2,):
            for s in ("advection", "euler") if p < 4 or big else ("advection",):
                out.append(I(B + "i01_poly", dict(system=s, p=p, N=N)))
        for N in (1, 3) if p < 4 or big else (2,):
            for s in ("advection", "euler"):
                out.append(I(B + "i01_nodes", dict(system=s, p=p, N=N, wide=True)))
    for p in range(4):
        out.append(I(B + "i01_poly", dict(system="advection", p=p, N=2, wide=True)))
    for N in (12, 40) if not big else (12, 40, 150):
        out.append(I(B + "i01_poly", dict(system="advection", p=2, N=N)))
        out.append(I(B + "i01_nodes", dict(system="euler", p=1, N=N)))
    out.append(I(B + "i01_poly", dict(system="advection", p=0, N=200)))
    out.append(I(B + "i01_nodes", dict(system="advection", p=0, N=600 if not big else 1500)))
    for p, N in ((0, 2), (1, 2), (2, 3), (5, 2)):
        out += sizes(B + "i01_coefs", dict(p=p, N=N))
    for p, N in ((0, 1000), (1, 300), (3, 60), (9, 2), (10, 3)) + (((11, 2), (12, 2), (2, 500)) if big else ()):
        out.append(I(B + "i01_coefs", dict(p=p, N=N)))
    for A, L in (("0", "1000"), ("50", "10"), ("-4", "8"), ("0", "10"), ("-1/8", "1/100")):
        for p in (1, 4):
            out.append(I(B + "i01_coefs", dict(p=p, N=5, A=A, L=L, system="euler")))
    return out


# ------------------------------------------------------------------ I02
DOMAINS = {"sinewave": (-1, 1, "periodic"), "ictest": (-1, 1, "periodic"), "entrpyw": (-1, 1, "periodic"), "acsticw": (-1, 1, "periodic"),
           "simplew": (-4, 4, "zerograd"), "scktube": (-1, 1, "zerograd"), "shuoshe": (0, 10, "zerograd")}
GAMMA = {"simplew": Fr(3)}


def primitives(h, ic, x, par=None):
    """Documented density, velocity, pressure at x (branching on the region)."""
    c = h.const
    if ic == "entrpyw":
        return 1 + c(Fr(1, 5)) * h.fn("sin", x * c(np.pi)), 1, 1
    if ic == "acsticw":
        k = h.fn("cos", x * c(np.pi / 2))
        k2 = k * k
        k4 = k2 * k2
        d = k4 * k4 * c(Fr(1, 10 ** 4))
        return 1 + d, 0, c(Fr(5, 7)) + d
    if ic == "scktube":
        return par["L"] if h.true_now(x < par["xd"]) else par["R"]
    if ic == "shuoshe":
        if h.true_now(x < 1):
            return c(Fr("3.857143")), c(Fr("2.629369")), c(Fr("10.333333"))
        return 1 + c(Fr(1, 5)) * h.fn("sin", 5 * (x - 5)), 0, 1
    if ic == "simplew":
        if h.true_now(x <= c(Fr(-3, 2))):
            w = 2
        elif h.true_now(x < c(Fr(-1, 2))):
            w = 1 - h.fn("tanh", (x + 1) / (c(Fr(1, 4)) - (x + 1) * (x + 1)))
        elif h.true_now(x <= c(Fr(1, 2))):
            w = 0
        elif h.true_now(x < c(Fr(3, 2))):
            w = 1 + h.fn("tanh", (x - 1) / (c(Fr(1, 4)) - (x - 1) * (x - 1)))
        else:
            w = 2
        a = 1 - w * c(Fr(1, 3))                 # sound speed, gamma = 3
        v = w * c(Fr(1, 3)) if h.true_now(x > 0) else -(w * c(Fr(1, 3)))
        return 3 * a, v, a * a * a
    raise KeyError(ic)


def check_state(h, ic, sol, vals, x, tag, par=None):
    if ic == "sinewave":
        h.eq("sine profile" + tag, vals[0], h.fn("sin", x * h.const(2 * np.pi)))
        return
    if ic == "ictest":
        s = h.fn("sin", x - h.const(np.pi / 3))
        h.eq("test profile" + tag, vals[0], s * s * s + 1)
        return
    rho, v, p = primitives(h, ic, x, par)
    g = GAMMA.get(ic, Fr(7, 5))
    big = 1e-9 * (par["tol"] if par else 1)
    h.eq("density" + tag, vals[0], rho, tol=big)
    h.eq("momentum" + tag, vals[1], rho * v, tol=big)
    h.eq("energy" + tag, vals[2], p * h.const(1 / (g - 1)) + rho * v * v * h.const(Fr(1, 2)), tol=big)
    if ic != "scktube":
        h.le("density is positive" + tag, h.const(Fr(1, 10 ** 4)) if ic != "simplew" else h.const(Fr(99, 100)), vals[0])


def ic_line(h, ic, N, scale=("1", "1")):
    """scale: of the two densities and pressures (a near vacuum, or other units)."""
    par = None
    if ic == "scktube":
        par = {"xd": h.real("xdiaph", -1, 1), "tol": max(1e-4, float(min(Fr(k) for k in scale)))}
        for s, k in zip("LR", scale):
            k = Fr(k)
            par[s] = (h.real("rho" + s, k / 16, 16 * k), h.real("v" + s, -4, 4), h.real("p" + s, k / 16, 16 * k))
        toks = [h.token(v) for v in (par["xd"],) + par["L"] + par["R"]]
        return "scktube %d %s" % (N, " ".join(toks)), par
    return "%s %d" % (ic, N), par


def after(h, ic, sol, N):
    """What the solution and the run use afterwards."""
    a, b, bc = DOMAINS[ic]
    h.true("left boundary type", sol.bc_l == bc)
    h.true("right boundary type", sol.bc_r == bc)
    mesh_checks(h, sol, h.const(a), h.const(b - a), N)
    h.eq("ratio of specific heats used afterwards", h.mod("dg1d.constants").gamma, h.const(GAMMA.get(ic, Fr(7, 5))))
    h.eq("start time", sol.t, 0)
    h.eq("start step", sol.n, 0)


def system_of(ic):
    return "advection" if ic in ("sinewave", "ictest") else "euler"


def i02_profile(h, ic, before="", scale=("1", "1")):
    """The profile function at an arbitrary position."""
    S = h.mod("dg1d.solution")
    if before:
        S.Solution("%s 2" % before, system_of(before), 0)
    Bm = h.mod("dg1d.basis")
    a, b, _ = DOMAINS[ic]
    x = h.real("x", a, b)
    seen = []

    def projection(self, lo, hi, f, component=0):
        r = h.zeros(self.p + 1)
        if not seen:
            seen.append(list(f(x)))
        r[0] = f(x)[component]
        return r
    old = getattr(Bm.Basis, "projection", None)
    if old is None:
        h.skip("no Basis.projection")
    Bm.Basis.projection = projection
    try:
        line, par = ic_line(h, ic, 1, scale)
        sol = S.Solution(line, system_of(ic), 0)
    finally:
        Bm.Basis.projection = old
    if not seen:
        h.skip("the profile is not read through Basis.projection")
    if par is not None:
        h.assume(h.OR(x < par["xd"] - h.const(Fr(1, 10 ** 9)), x >= par["xd"]))
    F = nf(system_of(ic))
    h.true("fields", int(sol.N_F) == F)
    check_state(h, ic, sol, [sol.u[0, F + f] for f in range(F)], x, "", par)
    after(h, ic, sol, 1)


def i02_cells(h, ic, p, N, before="", scale=("1", "1")):
    """Through the real projection: values at the Gauss nodes of every cell."""
    S = h.mod("dg1d.solution")
    if before:
        S.Solution("%s 2" % before, system_of(before), 0)
    line, par = ic_line(h, ic, N, scale)
    a, b, _ = DOMAINS[ic]
    xs, _ = gauss(p + 1)
    F = nf(system_of(ic))
    pts = {}
    for e in range(N):
        for g, xi in enumerate(xs):
            pts[e, g] = Fr(a) + Fr(b - a) * (Fr(2 * e + 1, 2 * N) + Fr(xi) / (2 * N))
    if par is not None:
        for x in pts.values():
            h.assume(h.OR(par["xd"] < h.const(x - Fr(1, 10 ** 9)), par["xd"] > h.const(x + Fr(1, 10 ** 9))))
    sol = S.Solution(line, system_of(ic), p)
    for e in range(N):
        vals = [node_values(h, sol.u, p, (e + 1) * F + f, xs) for f in range(F)]
        for g in range(p + 1):
            check_state(h, ic, sol, [vals[f][g] for f in range(F)], h.const(pts[e, g]), " at node %d of cell %d" % (g, e), par)
    after(h, ic, sol, N)


def i02_params(h, n):
    """A shock tube with the wrong number of parameters is refused."""
    S = h.mod("dg1d.solution")
    line = "scktube 3 " + " ".join(h.token(h.real("v%d" % k, Fr(1, 8), 1)) for k in range(n))
    h.true("refused", h.expect_raises((SystemExit, Exception), lambda: S.Solution(line, "euler", 1)))


def inst_i02(tier):
    big = tier != "quick"
    out = []
    for ic in DOMAINS:
        out.append(I(B + "i02_profile", dict(ic=ic)))
        if ic != "simplew":
            out.append(I(B + "i02_profile", dict(ic=ic, before="simplew")))
        for p, N in ((0, 5), (2, 3), (4, 1), (1, 12), (3, 8)) + (((0, 100), (5, 4), (6, 20)) if big else ((0, 40),)):
            out.append(I(B + "i02_cells", dict(ic=ic, p=p, N=N)))
    out.append(I(B + "i02_cells", dict(ic="scktube", p=1, N=4, before="simplew")))
    for scale in (("1", "1/1000000"), ("1/1000000", "1/1000"), ("100000", "100000")):
        out.append(I(B + "i02_profile", dict(ic="scktube", scale=scale)))
        out.append(I(B + "i02_cells", dict(ic="scktube", p=1, N=4, scale=scale)))
    return out


# ------------------------------------------------------------------ I03
def files(h):
    if h.symbolic:
        h.vfs()


def numbered(h, sol, tag):
    sol.t = h.real("t" + tag, 0, 100)
    sol.n = h.integer("n" + tag, 0, 10 ** 6)


def make_written(h, system, p, N, bc, **k):
    st = Stubs(h, nf(system))
    install_stubs(h, system, st)
    sol = make_solution(h, system, p, N, bc=bc, **k)
    sol.bc_l, sol.bc_r = bc
    A, L = h.real("A", -2, 2), h.real("L", Fr(1, 2), 4)
    sol.dx = L * h.const(Fr(1, N))
    sol.x = h.array_from((N + 1,), lambda i: A + L * h.const(Fr(i[0], N)))
    sol.xc = h.array_from((N,), lambda i: A + L * h.const(Fr(2 * i[0] + 1, 2 * N)))
    sol.scaled_minv = sol.basis.minv * 2.0 / sol.dx
    return sol


def same_solution(h, tag, got, t, n, bc, u, ref, p, N, F):
    h.ident("time" + tag, got.t, t)
    h.ident("step count" + tag, got.n, n)
    h.true("left boundary" + tag, got.bc_l == bc[0])
    h.true("right boundary" + tag, got.bc_r == bc[1])
    h.true("order" + tag, got.basis.p == p and got.basis.N_s == p + 1)
    h.true("elements" + tag, int(got.N_E) == N)
    h.true("array shape" + tag, got.u.shape == (p + 1, (N + 2) * F))
    if got.u.shape != (p + 1, (N + 2) * F):
        return False
    h.eq("cell size" + tag, got.dx, ref.dx)
    for i in range(N):
        h.ident("centroid %d%s" % (i, tag), got.xc[i], ref.xc[i])
    for i in range(N + 1):
        h.eq("edge %d%s" % (i, tag), got.x[i], ref.x[i])
    for i in range(p + 1):
        for j in range(F, (N + 1) * F):
            h.ident("u[%d,%d]%s" % (i, j, tag), got.u[i, j], u[i, j])
    return True


def i03(h, system, p, N, bc=("periodic", "periodic"), k=3, two=False):
    files(h)
    bc = tuple(bc)
    F = nf(system)
    sol = make_written(h, system, p, N, bc)
    todo = []
    for w in range(2 if two else 1):
        u = fill(h, sol, name="u%d" % w)
        numbered(h, sol, "%d" % w)
        kk = k + 7 * w
        sol.printer(kk, 0.25)
        h.eq_arr("state after writing %d" % w, sol.u, u, tol=0)
        todo.append((kk, u, sol.t, sol.n))
    other = h.mod("dg1d.solution").Solution("empty", system, 0)
    if two:
        todo.append(todo[0])
    for q, (kk, u, t, n) in enumerate(todo):
        other.loader(kk)
        tag = " (load %d)" % q if two else ""
        if not same_solution(h, tag, other, t, n, bc, u, sol, p, N, F):
            return
        if not two or q == len(todo) - 1:
            sol.u = u.copy()
            sol.t, sol.n = t, n
            use_loaded(h, system, sol, other, p, N, bc, tag)


def use_loaded(h, system, sol, other, p, N, bc, tag):
    """Boundary conditions, collocation, face values and residual of the loaded solution."""
    F = nf(system)
    ub = with_ghosts(h, sol.u, F, bc)
    other.apply_bc()
    h.eq_arr("ghosts%s " % tag, other.u, ub)
    sol.u = ub.copy()
    h.eq_arr("node values%s " % tag, other.collocate(), sol.collocate())
    h.eq_arr("face values%s " % tag, other.evaluate_faces(), sol.evaluate_faces())
    dg = h.mod("dg1d.dg")
    a, b = dg.DG(sol).residual(sol), dg.DG(other).residual(other)
    h.eq_arr("residual%s " % tag, b[:, F:-F], a[:, F:-F], tol=1e-7)


def i03_rewrite(h, system, p, N):
    """Writing the loaded solution again and loading that: still the same."""
    files(h)
    bc = ("zerograd", "periodic")
    F = nf(system)
    sol = make_written(h, system, p, N, bc)
    u = fill(h, sol, name="u")
    numbered(h, sol, "0")
    sol.printer(0, 0.0)
    S = h.mod("dg1d.solution")
    a, b = S.Solution("empty", system, 0), S.Solution("empty", system, 2)
    a.loader(0)
    a.printer(1, 0.5)
    b.loader(1)
    same_solution(h, " after two generations", b, sol.t, sol.n, bc, u, sol, p, N, F)


def i03_sensor(h, system, p, N, pattern):
    """With sensing on, the sensor file lists every cell's centroid and mark."""
    files(h)
    sol = make_solution(h, system, p, N, thresholds=(0.1, 0.1))
    F = nf(system)
    A, L = h.real("A", -2, 2), h.real("L", Fr(1, 2), 4)
    sol.xc = h.array_from((N,), lambda i: A + L * h.const(Fr(2 * i[0] + 1, 2 * N)))
    u = fill(h, sol)
    numbered(h, sol, "0")
    for i, m in enumerate(pattern):
        sol.sensors.sensors[i] = m
    sol.printer(2, 0.1)
    T = h.loadtxt("sensor%010d.dat" % 2, delimiter=",")
    h.true("sensor table", T.shape == (N, 2))
    if T.shape != (N, 2):
        return
    for i in range(N):
        h.ident("centroid of mark %d" % i, T[i, 0], sol.xc[i])
        h.ident("mark %d" % i, T[i, 1], pattern[i + 1])
    other = h.mod("dg1d.solution").Solution("empty", system, 0)
    other.loader(2)
    h.ident("time", other.t, sol.t)
    for i in range(p + 1):
        for j in range(F, (N + 1) * F):
            h.ident("u[%d,%d]" % (i, j), other.u[i, j], u[i, j])


def inst_i03(tier):
    big = tier != "quick"
    out = []
    for s in ("advection", "euler"):
        for p in range(9 if big else 6):
            for N in (2, 3, 6):
                for bc in (("periodic", "periodic"), ("zerograd", "zerograd")) + (("periodic", "zerograd"), ("zerograd", "periodic")):
                    out.append(I(B + "i03", dict(system=s, p=p, N=N, bc=list(bc), k=p)))
        out.append(I(B + "i03", dict(system=s, p=1, N=3, bc=["zerograd", "zerograd"], k=98765, two=True)))
        out.append(I(B + "i03", dict(system=s, p=5, N=2, k=12)))
        out.append(I(B + "i03_rewrite", dict(system=s, p=1, N=3)))
        out.append(I(B + "i03_sensor", dict(system=s, p=1, N=3, pattern=[2, 0, 1, 2, 1])))
        out.append(I(B + "i03_sensor", dict(system=s, p=0, N=4, pattern=[0, 0, 0, 0, 0, 0])))
    out.append(I(B + "i03", dict(system="euler", p=2, N=20, k=1)))
    out.append(I(B + "i03", dict(system="advection", p=3, N=60, k=1)))
    out.append(I(B + "i03", dict(system="advection", p=0, N=400 if not big else 1500, k=1)))
    out.append(I(B + "i03", dict(system="euler", p=1, N=130 if not big else 400, k=1)))
    out.append(I(B + "i03", dict(system="euler", p=9 if not big else 12, N=2, k=3)))
    return out


# ------------------------------------------------------------------ I04
SECTIONS = [("system", "PDE system"), ("rk", "RK scheme"), ("riemann", "riemann solver"), ("ic", "initial condition"),
            ("nout", "number of outputs"), ("finaltime", "final time"), ("cfl", "Courant-Friedrichs-Lewy condition"),
            ("order", "order"), ("limiting", "limiting"), ("enhance", "enhancement"), ("sensor_thresholds", "sensor thresholds")]
UNKNOWN = ["Some comment", "grid", "end of the problem setup", "System of units"]
STRINGS = {"system": ["euler", "advection"], "rk": ["rk8", "low_storage_rk4"], "riemann": ["godunov", "rusanov"],
           "ic": ["scktube 100 -0.4 1.0 0.75 1.0 0.125 0.0 0.1", "sinewave 8"], "limiting": ["adaptive_hr", ""], "enhance": ["icb 0 1 2", "icb 1 0"]}
DEFAULTS = dict(system="advection", rk="", riemann="roe", ic="sinewave", nout=10, finaltime=1, cfl=0.5, order=1, limiting="", enhance="", sensor_thresholds=[])


def value(h, key, tag, pos):
    """(text for the deck, expected value)"""
    if key in STRINGS:
        s = STRINGS[key][pos % len(STRINGS[key])]
        return s + (" " * (pos % 3)), s
    if key in ("nout", "order"):
        v = h.integer(key + tag, 0, 1000)
        return h.token(v, "d"), v
    if key == "sensor_thresholds":
        v = [h.real("thr%s_%d" % (tag, i), 0, 1) for i in range(1 + pos % 5)]
        return (" ", "  ", "\t", " \t ")[pos % 4].join(h.token(x, ".17e" if (i + pos) % 2 else "") for i, x in enumerate(v)) + " " * (pos % 2), v
    v = h.real(key + tag, Fr(1, 1000), 1000)
    return h.token(v, ".17e" if pos % 2 else ""), v


def compare_deck(h, deck, want):
    for k, v in want.items():
        got = getattr(deck, k)
        if isinstance(v, str):
            h.true("%s is %r, expected %r" % (k, got, v), got == v)
        elif isinstance(v, list):
            h.true("%s has %d entries" % (k, len(got)), len(got) == len(v))
            for i in range(min(len(v), len(got))):
                h.ident("%s[%d]" % (k, i), got[i], v[i])
        else:
            h.ident(k, got, v)


def parse(h, defs, raw=None):
    files(h)
    D = h.mod("dg1d.deck")
    name = D.write_deck(".", defs)
    d = D.Deck()
    d.parser(name)
    return d


def choose(h, name, n):
    """A symbolic choice among n alternatives, as a Python int per path."""
    s = h.integer(name, 0, n - 1)
    for k in range(n - 1):
        if h.true_now(s == k):
            return k
    return n - 1


def i04_sections(h, n, first=None):
    """Any sequence of n sections, known or not."""
    want = dict(DEFAULTS)
    defs = []
    K = len(SECTIONS)
    for i in range(n):
        k = first if (i == 0 and first is not None) else choose(h, "section%d" % i, K + 1)
        if k == K:
            defs.append((UNKNOWN[i % len(UNKNOWN)], "17"))
            continue
        key, head = SECTIONS[k]
        text, v = value(h, key, "_%d" % i, i)
        defs.append((head, text))
        want[key] = v
    compare_deck(h, parse(h, defs), want)


def i04_full(h, rot, rev=False, pos=0):
    """Complete decks, sections rotated and possibly reversed."""
    order = SECTIONS[rot:] + SECTIONS[:rot]
    if rev:
        order = order[::-1]
    want, defs = dict(DEFAULTS), []
    for i, (key, head) in enumerate(order):
        text, v = value(h, key, "", pos + i)
        defs.append((head, text))
        want[key] = v
    d = parse(h, defs)
    compare_deck(h, d, want)
    D = h.mod("dg1d.deck")
    compare_deck(h, D.Deck(), DEFAULTS)


def i04_two(h, a, b):
    """Two decks parsed one after the other do not share settings; headings may carry remarks."""
    files(h)
    D = h.mod("dg1d.deck")
    want = []
    for w, keys in enumerate((a, b)):
        exp, defs = dict(DEFAULTS), []
        for i, key in enumerate(keys):
            head = dict(SECTIONS)[key]
            text, v = value(h, key, "_%d" % w, w + i)
            defs.append((head + (" (see the notes)" if w else ""), text))
            exp[key] = v
        want.append((defs, exp))
    d1, d2 = D.Deck(), D.Deck()
    d1.parser(D.write_deck(".", want[0][0]))
    d2.parser(D.write_deck(".", want[1][0]))
    compare_deck(h, d1, want[0][1])
    compare_deck(h, d2, want[1][1])
    compare_deck(h, D.Deck(), DEFAULTS)


def inst_i04(tier):
    big = tier != "quick"
    out = [I(B + "i04_sections", dict(n=1)), I(B + "i04_sections", dict(n=2))]
    for k in range(len(SECTIONS) + 1):
        out.append(I(B + "i04_sections", dict(n=3 if not big else 4, first=k), max_paths=3000, budget=250 if not big else 900))
    for r in range(len(SECTIONS)):
        out.append(I(B + "i04_full", dict(rot=r, pos=r)))
        out.append(I(B + "i04_full", dict(rot=r, rev=True, pos=r + 1)))
    out.append(I(B + "i04_two", dict(a=["sensor_thresholds", "order"], b=["cfl"])))
    out.append(I(B + "i04_two", dict(a=["cfl", "rk", "limiting"], b=["sensor_thresholds", "finaltime", "enhance"])))
    out.append(I(B + "i04_two", dict(a=[], b=["ic", "nout", "riemann", "system"])))
    return out


# ------------------------------------------------------------------ I05
def patch_physics(h):
    """Every flux, speed and sensing routine becomes a recognisable arbitrary function."""
    A, E = h.mod("dg1d.advection_physics"), h.mod("dg1d.euler_physics")
    log = []

    def flux(name, F):
        def f(ul, ur):
            log.append(name)
            n = len(ul)
            out = h.zeros(n)
            for k in range(n // F):
                args = [ul[k * F + i] for i in range(F)] + [ur[k * F + i] for i in range(F)]
                for i in range(F):
                    out[k * F + i] = h.uf("%s%d" % (name, i), args)
            return out
        return f

    def inner(name, F):
        def f(ug):
            log.append(name)
            out = h.zeros(ug.shape)
            for g in range(ug.shape[0]):
                for k in range(ug.shape[1] // F):
                    args = [ug[g, k * F + i] for i in range(F)]
                    for i in range(F):
                        out[g, k * F + i] = h.uf("%s%d" % (name, i), args)
            return out
        return f

    def speed(name):
        def f(u):
            log.append(name)
            return h.uf(name, [u[0, j] for j in range(u.shape[1])], Fr(1, 2), 2)
        return f

    def sensing(name):
        def f(sensors, thresholds, solution):
            log.append(name)
            sensors[1:-1] = 1
        return f
    A.riemann_upwinding = flux("upwind", 1)
    A.interior_flux = inner("aflux", 1)
    A.max_wave_speed = speed("aspeed")
    A.sensing = sensing("asense")
    for n in ("roe", "rusanov", "godunov"):
        setattr(E, "riemann_" + n, flux(n, 3))
    E.interior_flux = inner("eflux", 3)
    E.max_wave_speed = speed("espeed")
    E.sensing = sensing("esense")
    return log


def expected_riemann(system, name):
    if system != "euler":
        return "upwind"
    return name if name in ("roe", "rusanov", "godunov") else "roe"


def i05_dispatch(h, system, riemann, p=1, N=2, enh="", before=None):
    """The solution object calls the physics its options name."""
    patch_physics(h)
    S = h.mod("dg1d.solution")
    if before:
        S.Solution("sinewave 2", before[0], 2, before[1], before[2], [0.3])
    sol = S.Solution(IC["euler" if system == "euler" else "advection"] % N, "".join(list(system)), p, "".join(list(riemann)), enh, [])
    F = 3 if system == "euler" else 1
    h.true("fields per cell", int(sol.N_F) == F)
    h.true("field names", list(sol.keywords["fields"]) == (["rho", "rhou", "E"] if F == 3 else ["u"]))
    h.true("order", sol.basis.p == p and sol.u.shape == (p + 1, (N + 2) * F))
    r = expected_riemann(system, riemann)
    ul, ur = h.arr("ul", (2 * F,)), h.arr("ur", (2 * F,))
    q = sol.riemann(ul.copy(), ur.copy())
    for k in range(2):
        a = [ul[k * F + i] for i in range(F)] + [ur[k * F + i] for i in range(F)]
        for i in range(F):
            h.eq("numerical flux %d of interface %d is %s" % (i, k, r), q[k * F + i], h.uf("%s%d" % (r, i), a), tol=0)
    ug = h.arr("ug", (1, F))
    fl = sol.interior_flux(ug.copy())
    for i in range(F):
        h.eq("physical flux %d" % i, fl[0, i], h.uf("%s%d" % ("eflux" if F == 3 else "aflux", i), [ug[0, k] for k in range(F)]), tol=0)
    u = fill(h, sol)
    h.eq("wave speed", sol.max_wave_speed(), h.uf("espeed" if F == 3 else "aspeed", [u[0, j] for j in range(u.shape[1])], Fr(1, 2), 2), tol=0)
    if enh:
        # the enhancement itself is the subject of E01..E03; here: the option reaches the solver
        f, n = sol.evaluate_faces(), u.shape[1]
        ref = h.mod("dg1d.enhance").Enhance(p, "".join(list(enh)), n).face_value(u.copy(), F)
        for j in range(n):
            if j >= F:
                h.eq("enhanced left face value %d" % j, f[0, j], ref[0, j])
            if j < n - F:
                h.eq("enhanced right face value %d" % j, f[1, j], ref[1, j])
    else:
        f = sol.evaluate_faces()
        for j in range(u.shape[1]):
            h.eq("left face value %d" % j, f[0, j], trace(u, p, j, -1))
            h.eq("right face value %d" % j, f[1, j], trace(u, p, j, 1))


def i05_limiter(h, system, name, thresholds, p=2, N=2):
    """adaptive_hr limits every flagged cell; any other name limits nothing."""
    log = patch_physics(h)
    sol = make_solution(h, system, p, N, thresholds=thresholds)
    lim = h.mod("dg1d.limiting").Limiter("".join(list(name)), sol)
    F = nf(system)
    u = fill(h, sol)
    if name != "adaptive_hr":
        lim.limit(sol)
        h.eq_arr("untouched ", sol.u[:, F:-F], u[:, F:-F], tol=0)
        return
    seen = []
    if not hasattr(lim, "hr"):
        h.skip("no hr")
    lim.hr = lambda uc, ul, ur: (seen.append(1), -uc)[1]
    lim.limit(sol)
    h.true("sensing of the system is used", log == ["%ssense" % ("e" if F == 3 else "a")])
    h.true("every cell and field is reconstructed", len(seen) == N * F)
    h.eq_arr("limited ", sol.u[:, F:-F], -u[:, F:-F], tol=0)


TABLES = ["rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14"]


def i05_rk(h, name):
    """The integrator uses the table its name stands for (one-stage tables with arbitrary weights)."""
    rkc = h.mod("dg1d.rk_coeffs")
    w = {}
    for t in TABLES:
        w[t] = h.real("w_" + t, Fr(1, 4), 2)

        def table(t=t):
            return [w[t]], [0.0], h.zeros((1, 1))
        setattr(rkc, "get_%s_coefficients" % t, table)
    sol = make_solution(h, "advection", 0, 2)
    u = fill(h, sol)
    c = [h.real("c%d" % i, -100, 100) for i in range(4)]

    class Res:
        def residual(self, s):
            r = h.zeros((1, 4))
            for i in range(4):
                r[0, i] = c[i]
            return r
    sol.printer = lambda *a, **k: None
    sol.max_wave_speed = lambda: 1e-6
    T = h.real("T", Fr(1, 4), 1)
    h.mod("dg1d.rk").integrate(sol, Deck("".join(list(name)), T), Res(), NoLimiter())
    t = name if name in TABLES else "rk4"
    for j in (1, 2):
        h.eq("cell %d advanced with the %s table" % (j, t), sol.u[0, j], u[0, j] + T * w[t] * c[j], tol=1e-9)


class Recorder(Exception):
    pass


def run_main(h, argv):
    """Runs dg1d/main.py as a program."""
    import subprocess
    old = sys.argv, list(sys.path), subprocess.check_output
    sys.argv = ["main.py"] + argv
    subprocess.check_output = lambda *a, **k: "version"
    try:
        repo = os.environ.get("DG1D_REPO", "/repo")
        path = os.path.join(repo, "dg1d", "main.py")
        if h.symbolic:
            import types
            m = types.ModuleType("__main__")
            m.__file__ = path
            m.__package__ = ""
            h.loader.exec_source(m, open(path).read(), path)
        else:
            import runpy
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv, sys.path[:], subprocess.check_output = old


def i05_main(h, system, rk, riemann, limiting, order, enh="", N=2, default=False):
    """The main program hands the configured, boundary-filled and limited problem to the integrator."""
    files(h)
    log = patch_physics(h)
    D, S, LM, rkm = h.mod("dg1d.deck"), h.mod("dg1d.solution"), h.mod("dg1d.limiting"), h.mod("dg1d.rk")
    if system == "euler":
        ic, _ = ic_line(h, "scktube", N)
        xs = gauss(order + 1)[0]
        for e in range(N):
            for x in xs:
                pt = Fr(-1) + 2 * (Fr(2 * e + 1, 2 * N) + Fr(x) / (2 * N))
                h.assume(h.OR(h_xd(h) < h.const(pt - Fr(1, 10 ** 9)), h_xd(h) > h.const(pt + Fr(1, 10 ** 9))))
    else:
        ic = "sinewave %d" % N
    T, cfl = h.real("finaltime", Fr(1, 10), 10), h.real("cfl", Fr(1, 100), 1)
    thr = [h.real("thr0", 0, 1), h.real("thr1", 0, 1)]
    nout = h.integer("nout", 2, 50)
    defs = [("PDE system", system), ("RK scheme", rk), ("riemann solver", riemann), ("initial condition", ic), ("number of outputs", h.token(nout, "d")),
            ("final time", h.token(T)), ("Courant-Friedrichs-Lewy condition", h.token(cfl)), ("order", "%d" % order), ("limiting", limiting)]
    if enh:
        defs.append(("enhancement", enh))
    defs.append(("sensor thresholds", " ".join(h.token(t) for t in thr)))
    name = D.write_deck(".", defs)
    if hasattr(LM.Limiter, "hr"):
        LM.Limiter.hr = lambda self, uc, ul, ur: 2 * uc - ul + 3 * ur      # reconstruction itself: L01..L06
    got = []
    old = rkm.integrate
    rkm.integrate = lambda *a, **k: got.append((a, k))
    if not default:
        argv = ["-d", name]
    else:
        argv = []
    try:
        run_main(h, argv)
    finally:
        rkm.integrate = old
    h.true("the integrator is started once", len(got) == 1)
    if len(got) != 1:
        return
    a, k = got[0]
    names = ["solution", "deck", "dgsolver", "limiter"]
    arg = dict(zip(names, a))
    arg.update(k)
    sol, dk, dg, lim = (arg[n] for n in names)
    ran = list(log)
    F = nf(system)
    h.ident("final time", dk.finaltime, T)
    h.ident("Courant number", dk.cfl, cfl)
    h.ident("outputs", dk.nout, nout)
    h.true("integrator", dk.rk == rk)
    # the same problem put together by hand
    ref = S.Solution(ic, system, order, riemann, enh, thr)
    ref.apply_bc()
    rl = LM.Limiter(limiting, ref)
    del log[:]
    rl.limit(ref)
    h.true("initial state sensed and limited as configured: %s" % ran, ran == (log if limiting == "adaptive_hr" else []))
    h.true("state shape", sol.u.shape == ref.u.shape)
    if sol.u.shape != ref.u.shape:
        return
    h.eq_arr("initial state ", sol.u, ref.u)
    if limiting == "adaptive_hr":
        for i in range(2):
            h.ident("threshold %d" % i, sol.sensors.thresholds[i], thr[i])
    v = fill(h, sol, name="v")
    ref.u = v.copy()
    r1, r2 = dg.residual(sol), h.mod("dg1d.dg").DG(ref).residual(ref)
    h.eq_arr("residual ", r1[:, F:-F], r2[:, F:-F], tol=1e-8)
    ul, ur = h.arr("ul", (F,)), h.arr("ur", (F,))
    q = sol.riemann(ul.copy(), ur.copy())
    r = expected_riemann(system, riemann)
    for i in range(F):
        h.eq("numerical flux %d is %s" % (i, r), q[i], h.uf("%s%d" % (r, i), list(ul) + list(ur)), tol=0)
    sol.u = v.copy()
    lim.limit(sol)
    ref.u = v.copy()
    rl.limit(ref)
    h.eq_arr("limiter ", sol.u[:, F:-F], ref.u[:, F:-F], tol=1e-8)


def h_xd(h):
    """The diaphragm position already created by ic_line."""
    if h.symbolic:
        g = h.names["xdiaph"]
        return h.core.Sym({((g.idx, 1),): Fr(1)}, None)
    return h.real("xdiaph", -1, 1)


def inst_i05(tier):
    big = tier != "quick"
    out = []
    for s in ("advection", "euler"):
        for r in ("", "roe", "rusanov", "godunov", "hllc", "Roe"):
            out.append(I(B + "i05_dispatch", dict(system=s, riemann=r)))
        for p in (0, 2, 5):
            out.append(I(B + "i05_dispatch", dict(system=s, riemann="rusanov", p=p, N=1)))
        if s == "euler":
            for r in ("roe", "godunov"):
                for p in (0, 2, 3, 4, 6, 8):
                    out.append(I(B + "i05_dispatch", dict(system=s, riemann=r, p=p, N=1)))
                out.append(I(B + "i05_dispatch", dict(system=s, riemann=r, N=3 if r == "roe" else 40)))
        for enh, p in (("icb 0", 1), ("icb 0 1", 2), ("recovery 0 1", 1), ("icb 2 0", 3)):
            out.append(I(B + "i05_dispatch", dict(system=s, riemann="rusanov", p=p, enh=enh)))
        out.append(I(B + "i05_dispatch", dict(system=s, riemann="", before=["euler", "godunov", "icb 0"])))
        out.append(I(B + "i05_dispatch", dict(system=s, riemann="godunov", before=["advection", "", ""])))
        for name in ("adaptive_hr", "", "hr", "Adaptive_hr", "none"):
            out.append(I(B + "i05_limiter", dict(system=s, name=name, thresholds=[0.1, 0.2])))
        out.append(I(B + "i05_limiter", dict(system=s, name="", thresholds=[])))
    for name in TABLES + ["", "rk2", "RK8", "euler"]:
        out.append(I(B + "i05_rk", dict(name=name)))
    cases = [("advection", "rk4", "", "", 1, ""), ("advection", "low_storage_rk4", "", "adaptive_hr", 2, ""), ("advection", "rk3", "", "", 2, "icb 0 1"),
             ("euler", "rk8", "roe", "adaptive_hr", 1, ""), ("euler", "rk4", "godunov", "", 1, ""), ("euler", "rk5", "rusanov", "adaptive_hr", 2, ""),
             ("euler", "rk14", "roe", "", 0, ""), ("euler", "rk3", "godunov", "adaptive_hr", 1, "icb 1 0")]
    for k, (s, rk, r, lm, p, e) in enumerate(cases):
        out.append(I(B + "i05_main", dict(system=s, rk=rk, riemann=r, limiting=lm, order=p, enh=e, default=k % 3 == 1)))
    if big:
        for s, N, p in (("advection", 5, 3), ("euler", 4, 2)):
            out.append(I(B + "i05_main", dict(system=s, rk="rk6", riemann="roe", limiting="adaptive_hr", order=p, N=N)))
    return out


PROPS = {
    "I01": dict(instances=inst_i01, bounds="all domains with left end in [-2,2] and length in [1/8,4] (orders 0..3 and arbitrary profiles: left end in [-10,10], length in [1/8,60]), all polynomial profiles with coefficients in [-100,100] (from order 4: [-1,1]) and arbitrary (uninterpreted) profiles, orders 0..10 (thorough 12), 1 to 1000 elements (fixed meshes among them), data also times 1e-9 to 1e8, 1 and 3 fields"),
    "I02": dict(instances=inst_i02, bounds="every position in the domain (uninterpreted sin/cos/tanh), every diaphragm position in [-1,1] farther than 1e-9 from a node, densities and pressures in [1/16,16] (also times 1e-6, 1e-3 and 1e5, on either side), velocities in [-4,4]; real projection for (order, cells) = (0,5), (2,3), (4,1), (1,12), (3,8), (0,40) (thorough up to order 6 and 100 cells); also after another problem changed the ratio of specific heats",
                stubs="i02_profile evaluates the profile at an arbitrary position in place of Basis.projection; sin, cos, tanh uninterpreted with their ranges"),
    "I03": dict(instances=inst_i03, bounds="all coefficients in [-100,100], times in [0,100], step counts to 1e6, meshes with left end in [-2,2] and length in [1/2,4]; orders 0..5, 9 (thorough 0..8, 12), 2..6, 20, 60 and 130 (thorough 400) elements, all four boundary pairings, two outputs loaded in turn and again, two generations, sensor files",
                stubs="text files are kept in memory with symbolic numbers; a printed number reads back exactly if its format has 17 significant digits and off by up to half a unit of the last digit otherwise; numerical and physical fluxes uninterpreted",
                outside="one-element solutions (the loader needs two centroids to know the cell size); the ratio of specific heats is not part of the file"),
    "I04": dict(instances=inst_i04, bounds="all numeric values (real in [1/1000,1000], integer in [0,1000], 1..5 thresholds in [0,1], various blanks between them; written plainly or with an exponent), every sequence of up to three sections out of eleven known and one unknown (thorough four), complete decks in 22 orders, two decks in a row",
                stubs="deck files are kept in memory with symbolic numbers", outside="string settings are drawn from two values each; values containing a section heading"),
    "I05": dict(instances=inst_i05, bounds="every system, Riemann solver name (known, empty, unknown), limiter and integrator name; orders 0..5 (Riemann solvers: 0..8 and 1..40 cells); all interface states and initial shock-tube parameters; the main program for eight decks (thorough ten)",
                stubs="physics routines replaced by distinct uninterpreted functions, Runge-Kutta tables by one-stage tables with arbitrary weights, cell reconstruction replaced by a fixed linear map and rk.integrate recorded in i05_main, git call in main.py"),
}
