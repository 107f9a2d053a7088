"""B01 (basis) and E01 (interface enhancement)."""
from fractions import Fraction as Fr
from itertools import combinations, permutations

import numpy as np

from symx.harness import Instance as I
from .common import *

B = "basisenh:"


# ------------------------------------------------------------------ B01
def expand(h, c, x, der=0):
    """sum_n c_n P_n^(der)(x) for an exact number x"""
    v = 0
    for n in range(len(c)):
        P = list(legendre(n))
        for _ in range(der):
            P = pder(P)
        w = pval(P, x)
        if w:
            v = v + c[n] * h.const(w)
    return v


def b01_basis(h, p):
    """Nodes, weights and matrices of the order-p basis act exactly on arbitrary expansions."""
    b = h.mod("dg1d.basis").Basis(p)
    np1 = h.mod("numpy") if False else np
    h.true("sizes", int(b.p) == p and int(b.N_s) == p + 1 and int(b.N_G) == len(b.x) == len(b.w) == p + 1)
    xs, ws = gauss(p + 1)
    # quadrature of an arbitrary polynomial of degree 2p+1
    q = [h.real("q%d" % k, -100, 100) for k in range(2 * p + 2)]
    s = 0
    for x, w in zip(b.x, b.w):
        v = 0
        for k in range(2 * p + 1, -1, -1):
            v = v * h.const(Fr(float(x))) + q[k]
        s = s + v * h.const(Fr(float(w)))
    e = 0
    for k in range(0, 2 * p + 2, 2):
        e = e + q[k] * h.const(Fr(2, k + 1))
    h.eq("quadrature of degree %d" % (2 * p + 1), s, e)
    # evaluation
    c = h.arr("c", (p + 1,))
    vg = b.phi @ c if not h.symbolic else h.npx.NP.dot(b.phi, c)
    for g in range(p + 1):
        h.eq("value at node %d" % g, vg[g], expand(h, c, xs[g]))
    ve = h.npx.NP.dot(b.psi, c) if h.symbolic else np.dot(b.psi, c)
    h.eq("value at the left edge", ve[0], expand(h, c, Fr(-1)))
    h.eq("value at the right edge", ve[1], expand(h, c, Fr(1)))
    # weighted derivatives: integral of f * (expansion)' for f given at the nodes
    f = h.arr("f", (p + 1,))
    dn = h.npx.NP.dot(b.dphi_w, f) if h.symbolic else np.dot(b.dphi_w, f)
    for n in range(p + 1):
        e = 0
        for g in range(p + 1):
            e = e + f[g] * h.const(ws[g] * pval(pder(list(legendre(n))), xs[g]))
        h.eq("integral of f * P%d'" % n, dn[n], e)
    # mass: the L2 norm of the expansion, and its inverse
    m = 0
    for n in range(p + 1):
        m = m + c[n] * c[n] * h.const(Fr(float(b.m[n])))
        h.eq("inverse mass %d" % n, c[n] * h.const(Fr(float(b.m[n]))) * h.const(Fr(float(b.minv[n]))), c[n])
    sq = 0
    for g in range(p + 1):
        sq = sq + vg[g] * vg[g] * h.const(ws[g])
    h.eq("L2 norm through the mass matrix", m, sq)


def leg_series(h, c):
    """A numpy Legendre series whose coefficients may be symbolic."""
    from numpy.polynomial import Legendre as L
    return L(np.asarray(h.plain(c), dtype=object) if h.symbolic else np.asarray(c, dtype=float))


def eval_series(h, l, x):
    coef = list(np.asarray(l.coef, dtype=object).reshape(-1))
    v, a, b = 0, 1, None
    # three-term recurrence at a possibly symbolic x
    P = [1, x]
    for n in range(2, len(coef)):
        P.append(P[n - 1] * x * h.const(Fr(2 * n - 1, n)) - P[n - 2] * h.const(Fr(n - 1, n)))
    for n, cn in enumerate(coef):
        v = v + (h.const(Fr(float(cn))) if not hasattr(cn, "num") else cn) * P[n]
    return v


def b01_shift(h, n, s):
    """shift(l, s)(x) = l(x + s) for every x; l a basis polynomial."""
    bm = h.mod("dg1d.basis")
    from numpy.polynomial import Legendre as L
    s = Fr(s)
    ls = bm.shift_legendre_polynomial(L.basis(n), float(s))
    x = h.real("x", -3, 3)
    P = pcompose(list(legendre(n)), 1, s)
    v = 0
    for k in range(n, -1, -1):
        v = v * x + h.const(P[k])
    h.true("series on the reference interval", [float(t) for t in ls.window] == [-1.0, 1.0] and [float(t) for t in ls.domain] == [-1.0, 1.0])
    h.eq("shifted polynomial", eval_series(h, ls, x), v, tol=max(1e-7, 1e-11 * float(pval(list(legendre(n)), 3 + abs(s)))))


def b01_product(h, p, q):
    """The product integral of two arbitrary expansions."""
    bm = h.mod("dg1d.basis")
    a, b = h.arr("a", (p + 1,)), h.arr("b", (q + 1,))
    v = bm.integrate_legendre_product(leg_series(h, a), leg_series(h, b))
    e = 0
    for n in range(min(p, q) + 1):
        e = e + a[n] * b[n] * h.const(Fr(2, 2 * n + 1))
    h.eq("integral", v, e, tol=1e-8)


def b01_shift_general(h, p, s):
    """Every expansion, not only basis polynomials: mode by mode (linear in the coefficients)."""
    bm = h.mod("dg1d.basis")
    a = h.arr("a", (p + 1,))
    ls = bm.shift_legendre_polynomial(leg_series(h, a), float(Fr(s)))
    h.true("series on the reference interval", [float(t) for t in ls.window] == [-1.0, 1.0] and [float(t) for t in ls.domain] == [-1.0, 1.0])
    coef = list(np.asarray(ls.coef, dtype=object).reshape(-1))
    for m in range(max(p + 1, len(coef))):
        ref = 0
        for n in range(m, p + 1):
            P = pcompose(list(legendre(n)), 1, Fr(s))
            ref = ref + a[n] * h.const(Fr(2 * m + 1, 2) * pint(pmul(P, list(legendre(m))), -1, 1))
        c = 0
        if m < len(coef):
            c = h.const(Fr(float(coef[m]))) if not hasattr(coef[m], "num") else coef[m]
        h.eq("mode %d of the shifted expansion" % m, c, ref, tol=1e-7)


def inst_b01(tier):
    big = tier != "quick"
    out = [I(B + "b01_basis", dict(p=p)) for p in range(11 if not big else 15)]
    for n in range(9 if not big else 11):
        for s in ("2", "-2", "1/2", "-1", "3", "-3", "0") + (("1/2500000", "-1/1000") if n > 2 else ()):
            out.append(I(B + "b01_shift", dict(n=n, s=s)))
    for p in range(5 if not big else 8):
        for q in range(5 if not big else 8):
            out.append(I(B + "b01_product", dict(p=p, q=q)))
        for s in ("2", "-2", "1/3") if not big else ("2", "-2", "1/3", "-3/2", "3"):
            out.append(I(B + "b01_shift_general", dict(p=p, s=s), max_paths=3000))
    return out


# ------------------------------------------------------------------ E01
def shifted_modes(j, s, modes):
    """Legendre modes (in the neighbour's coordinate) of P_j continued into the cell s reference lengths away."""
    P = pcompose(list(legendre(j)), 1, s)
    return [Fr(2 * m + 1, 2) * pint(pmul(P, list(legendre(m))), -1, 1) for m in modes]


def solve_exact(A, b):
    n = len(A)
    M = [list(r) + [b[i]] for i, r in enumerate(A)]
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def enhancement_weights(p, modes, side):
    """Exact weights of own modes and of the neighbour's requested modes in the enhanced face value."""
    modes = sorted(modes)
    N = p + len(modes)
    A = [[Fr(int(i == j)) for j in range(N + 1)] for i in range(p + 1)]
    cols = [shifted_modes(j, 2 if side > 0 else -2, modes) for j in range(N + 1)]
    for i in range(len(modes)):
        A.append([cols[j][i] for j in range(N + 1)])
    e = [pval(list(legendre(j)), Fr(1 if side > 0 else -1)) for j in range(N + 1)]
    T = [[A[j][i] for j in range(N + 1)] for i in range(N + 1)]
    w = solve_exact(T, e)          # w^T = e^T A^{-1}
    own = w[:p + 1]
    nb = {m: w[p + 1 + k] for k, m in enumerate(modes)}
    return own, nb


def e01_faces(h, p, listing, system="advection", N=2, direct=False, tol=1e-8):
    """Enhanced face values of every cell from its own and its neighbour's modes."""
    F = nf(system)
    method = "icb " + " ".join(map(str, listing))
    if direct:
        en = h.mod("dg1d.enhance").Enhance(p, method, (N + 2) * F)
        u = h.arr("u", (p + 1, (N + 2) * F))
        f = en.face_value(u.copy(), F)
        h.true("enhanced order", int(en.order) == p + len(listing))
    else:
        sol = make_solution(h, system, p, N, enh=method)
        u = fill(h, sol)
        f = sol.evaluate_faces()
        h.eq_arr("solution untouched ", sol.u, u, tol=0)
    oR, nR = enhancement_weights(p, listing, +1)
    oL, nL = enhancement_weights(p, listing, -1)
    C = (N + 2)
    for c in range(C):
        for k in range(F):
            j = c * F + k
            if c + 1 < C:
                v = 0
                for n in range(p + 1):
                    v = v + u[n, j] * h.const(oR[n])
                for m, w in nR.items():
                    v = v + u[m, j + F] * h.const(w)
                h.eq("right face of cell %d, field %d" % (c, k), f[1, j], v, tol=tol)
            if c > 0:
                v = 0
                for n in range(p + 1):
                    v = v + u[n, j] * h.const(oL[n])
                for m, w in nL.items():
                    v = v + u[m, j - F] * h.const(w)
                h.eq("left face of cell %d, field %d" % (c, k), f[0, j], v, tol=tol)


def e01_matrices(h, p, modes):
    """A and B map enhanced modes to (own modes, requested neighbour modes); the inverses invert."""
    mats = h.mod("dg1d.enhance").enhancement_matrices(p, list(modes))
    A, Ai, Bm, Bi = [np.asarray(m, dtype=float) for m in mats]
    N = p + len(modes)
    x = h.arr("x", (N + 1,), -1, 1)

    def mul(M, v):
        out = []
        for i in range(M.shape[0]):
            t = 0
            for j in range(M.shape[1]):
                if M[i, j]:
                    t = t + v[j] * h.const(Fr(float(M[i, j])))
            out.append(t)
        return out
    for tag, M, Mi, s in (("A", A, Ai, 2), ("B", Bm, Bi, -2)):
        h.true("shape of " + tag, M.shape == Mi.shape == (N + 1, N + 1))
        y = mul(M, x)
        for i in range(p + 1):
            h.eq("%s row %d: own mode" % (tag, i), y[i], x[i])
        cols = [shifted_modes(j, s, list(modes)) for j in range(N + 1)]
        for i in range(len(modes)):
            v = 0
            for j in range(N + 1):
                v = v + x[j] * h.const(cols[j][i])
            h.eq("%s row %d: neighbour mode %d" % (tag, p + 1 + i, modes[i]), y[p + 1 + i], v, tol=1e-7)
        z = mul(Mi, y)
        for i in range(N + 1):
            h.eq("inverse of %s, component %d" % (tag, i), z[i], x[i], tol=1e-7)


def e01_smooth(h, p, listing):
    """A global polynomial of the enhanced degree is recovered across the face."""
    N = p + len(listing)
    sol = make_solution(h, "advection", p, 2, enh="icb " + " ".join(map(str, listing)))
    c = [h.real("c%d" % k, -100, 100) for k in range(N + 1)]
    for cell in range(4):
        for n in range(p + 1):
            v = 0
            for k in range(N + 1):
                # x = (xi + 2*(cell-1.5)) / 4
                P = pcompose([Fr(0)] * k + [Fr(1)], Fr(1, 4), Fr(2 * cell - 3, 4))
                w = Fr(2 * n + 1, 2) * pint(pmul(P, list(legendre(n))), -1, 1)
                v = v + c[k] * h.const(w)
            sol.u[n, cell] = v
    f = sol.evaluate_faces()
    # recovery needs the own modes beyond degree p to be absent or the polynomial to be of degree <= p
    for cell in range(4):
        for side in (-1, 1):
            if 0 <= cell + side < 4:
                x = Fr(2 * cell - 3 + side, 4)
                v = 0
                for k in range(N + 1):
                    v = v + c[k] * h.const(x ** k)
                h.eq("face %+d of cell %d" % (side, cell), f[0 if side < 0 else 1, cell], v, tol=1e-7)


def mode_sets(p, kmax=3):
    for k in range(1, min(kmax, p + 1) + 1):
        for s in combinations(range(p + 1), k):
            yield s


def inst_e01(tier):
    big = tier != "quick"
    out = []
    for p in range(4 if not big else 6):
        for s in mode_sets(p):
            out.append(I(B + "e01_matrices", dict(p=p, modes=list(s))))
            for q in permutations(s):
                if not big and len(s) == 3 and p == 3 and q not in (s, s[::-1], (s[1], s[2], s[0])):
                    continue
                out.append(I(B + "e01_faces", dict(p=p, listing=list(q))))
            out.append(I(B + "e01_faces", dict(p=p, listing=list(s)[::-1], system="euler", N=1 + p % 3, direct=bool(p % 2))))
            out.append(I(B + "e01_smooth", dict(p=p, listing=list(s))))
    for N in (1, 4):
        out.append(I(B + "e01_faces", dict(p=2, listing=[2, 0], system="euler", N=N)))
    out.append(I(B + "e01_faces", dict(p=1, listing=[0, 1], N=9)))
    for p, s in ((3, (0, 1, 2, 3)), (4, (0,)), (4, (0, 2, 3)), (4, (4, 1)), (4, (3, 0, 1, 2)), (5, (0, 1)), (5, (2, 5, 0)), (6, (0, 3))):
        out.append(I(B + "e01_matrices", dict(p=p, modes=sorted(s))))
        out.append(I(B + "e01_faces", dict(p=p, listing=list(s))))
    # rounding of the inverse matrices grows with the order
    for p, s in ((10, (10, 2)), (11, (10, 0, 9)), (12, (2, 11))):
        out.append(I(B + "e01_faces", dict(p=p, listing=list(s), tol=1e-4)))
    return out


PROPS = {
    "B01": dict(instances=inst_b01, bounds="all coefficients in [-100,100], evaluation points in [-3,3] (general expansions: [-1,1]), orders 0..10 (thorough 14), shifts 0, -1, 1/2, 1/3, 2, -2, 3, -3 and small ones, products of expansions up to order 4 (thorough 7)"),
    "E01": dict(instances=inst_e01, bounds="all solution coefficients in [-100,100], all non-empty sets of up to three neighbour modes for orders 0..3 (thorough 5), some of up to four modes to order 6, modes of 10 and above beside smaller ones at orders 10 to 12 (tolerance 1e-4), every listing order of them (quick: three listings of the three-mode sets of order 3), 1..9 interior cells, 1 and 3 fields; oracle: exact rational reconstruction"),
}
