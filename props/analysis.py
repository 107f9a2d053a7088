"""A01, A02: the stability analysis scripts."""
import ast
import builtins
import math
import os
import sys
import types
from fractions import Fraction as Fr

import numpy as np

from symx.harness import Instance as I
from .common import *
from .spatial import Deck, NoLimiter

B = "analysis:"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Anything(types.ModuleType):
    """Stands in for the plotting modules."""

    def __init__(self, name="anything"):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything(n)

    def __call__(self, *a, **k):
        return Anything("call")

    def __getitem__(self, k):
        return Anything("item")


def script(h, name):
    """Definitions of an analysis script (its functions, classes, imports and literal
    constants) without running the plots at the end."""
    repo = os.environ.get("DG1D_REPO", "/repo")
    path = os.path.join(repo, "analysis", name)
    tree = ast.parse(open(path).read(), path)
    keep = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            keep.append(s)
        elif isinstance(s, ast.Assign):
            try:
                ast.literal_eval(s.value)
                keep.append(s)
            except (ValueError, SyntaxError):
                pass
    mod = ast.Module(keep, [])
    ns = {"__name__": name[:-3], "__file__": path}

    def imp(nm, globals=None, locals=None, fromlist=(), level=0):
        top = nm.split(".")[0]
        if top in ("matplotlib", "scipy"):
            return Anything(nm)
        if top == "sympy":
            if VT not in sys.path:
                sys.path.append(VT)
            return builtins.__import__(nm, globals, locals, fromlist, level)
        if os.path.isfile(os.path.join(repo, "dg1d", nm + ".py")):
            return h.mod("dg1d." + nm)
        if top == "dg1d" or os.path.isfile(os.path.join(repo, "analysis", nm + ".py")):
            if h.symbolic:
                return h.loader._import(nm, globals, locals, fromlist, level)
            return h.mod(nm) if "." not in nm or fromlist else h.mod(top)
        return builtins.__import__(nm, globals, locals, fromlist, level)
    b = dict(vars(builtins))
    b["__import__"] = imp
    b["print"] = lambda *a, **k: None
    ns["__builtins__"] = b
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exec(compile(mod, path, "exec"), ns)
    return ns


def laurent(e, T):
    """{shift: coefficient} of a sympy expression in T."""
    import sympy
    out = {}
    for term in sympy.Add.make_args(sympy.expand(e)):
        c, t = term.as_coeff_Mul()
        k = 0 if t == 1 else int(t.as_base_exp()[1]) if t.as_base_exp()[0] == T else None
        if k is None:
            raise ValueError("not a Laurent polynomial: %s" % term)
        out[k] = out.get(k, Fr(0)) + Fr(float(c))
    return out


def matrices(h, p, K):
    ns = script(h, "dg_stability.py")
    import sympy
    T = sympy.Symbol("T")
    m = ns["dg_matrices"](p, T) if not K else ns["icb_matrices"](p, list(K), T)
    return ns, T, m


def solver_residual(h, p, K, u):
    """Residual of the solver on a periodic mesh with columns u[mode, cell]."""
    N = u.shape[1]
    sol = make_solution(h, "advection", p, N, enh=("icb " + " ".join(map(str, K))) if K else "")
    for i in range(p + 1):
        for j in range(N):
            sol.u[i, j + 1] = u[i, j]
    return h.mod("dg1d.dg").DG(sol).residual(sol), N


def a01(h, p, K, N):
    """Matrices with the cell shift T, applied to any periodic state, against the solver's residual."""
    ns, T, (Minv, F, G0, G1) = matrices(h, p, K)
    u = h.arr("u", (p + 1, N))
    R, _ = solver_residual(h, p, K, u)
    Minv, F = np.asarray(Minv, dtype=float), np.asarray(F, dtype=float)
    h.true("shapes", Minv.shape == F.shape == (p + 1, p + 1) == tuple(G0.shape) == tuple(G1.shape))
    for j in range(N):
        flux = []
        for i in range(p + 1):
            v = 0
            for k in range(p + 1):
                if F[i, k]:
                    v = v + u[k, j] * h.const(Fr(float(F[i, k])))
                for G, s in ((G0, 1), (G1, -1)):
                    for sh, c in laurent(G[i, k], T).items():
                        if c:
                            v = v + s * (u[k, (j + sh) % N] * h.const(c))
            flux.append(v)
        for i in range(p + 1):
            v = 0
            for k in range(p + 1):
                if Minv[i, k]:
                    v = v + flux[k] * h.const(Fr(float(Minv[i, k])) * N)
            h.eq("mode %d of cell %d" % (i, j), v, R[i, j + 1], tol=1e-7)


class CatchEig:
    def __init__(self):
        self.seen = []

    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def eigvals(self, A):
        self.seen.append(np.array(A, dtype=complex))
        return np.zeros(len(A), dtype=complex)


def a01_waves(h, p, K, every=1):
    """The matrix whose eigenvalues are plotted acts on a plane wave as the solver does."""
    ns, T, (Minv, F, G0, G1) = matrices(h, p, K)
    if "nla" not in ns or "get_eigenvalue" not in ns:
        h.skip("eigenvalues are not taken through nla.eigvals")
    eig = ns["nla"] = CatchEig()
    ns["get_eigenvalue"](np.asarray(Minv, dtype=float), np.asarray(F, dtype=float), G0, G1, T)
    if not eig.seen:
        h.skip("eigenvalues are not taken through nla.eigvals")
    n = len(eig.seen)
    a, b = h.arr("a", (p + 1,)), h.arr("b", (p + 1,))
    N, c = 5, 2
    for q in range(0, n, every):
        beta = -math.pi + 2 * math.pi * q / (n - 1)
        re, im = h.zeros((p + 1, N)), h.zeros((p + 1, N))
        for j in range(N):
            co, si = h.const(Fr(math.cos(beta * (j - c)))), h.const(Fr(math.sin(beta * (j - c))))
            for i in range(p + 1):
                re[i, j] = a[i] * co - b[i] * si
                im[i, j] = a[i] * si + b[i] * co
        Rr, _ = solver_residual(h, p, K, re)
        Rr = Rr[:, c + 1].copy()
        Ri, _ = solver_residual(h, p, K, im)
        Ri = Ri[:, c + 1].copy()
        A = eig.seen[q]
        for i in range(p + 1):
            vr = vi = 0
            for k in range(p + 1):
                x, y = h.const(Fr(float(A[i, k].real))), h.const(Fr(float(A[i, k].imag)))
                vr = vr + a[k] * x - b[k] * y
                vi = vi + a[k] * y + b[k] * x
            h.eq("wave %d, mode %d, real part" % (q, i), vr * N, Rr[i], tol=1e-6)
            h.eq("wave %d, mode %d, imaginary part" % (q, i), vi * N, Ri[i], tol=1e-6)


SETS = {0: [[0]], 1: [[0], [1], [0, 1], [1, 0]], 2: [[0], [0, 1], [0, 2], [2, 0, 1]], 3: [[0, 1], [0, 1, 2], [3, 1]], 4: [[0, 1, 2]], 5: [[0, 2]]}


def inst_a01(tier):
    big = tier != "quick"
    out = []
    for p in range(5 if not big else 7):
        for N in (1, 2, 4) if p < 3 else (4,):
            out.append(I(B + "a01", dict(p=p, K=[], N=N)))
        for K in SETS.get(p, []):
            out.append(I(B + "a01", dict(p=p, K=K, N=4)))
        if p == 0:
            for q in (6, 8) if not big else (7, 8, 9, 10):
                out.append(I(B + "a01", dict(p=q, K=[], N=3)))
        if p < 4:
            out.append(I(B + "a01", dict(p=p, K=SETS[p][0], N=1)))
            out.append(I(B + "a01_waves", dict(p=p, K=[], every=7 if not big else 1)))
            out.append(I(B + "a01_waves", dict(p=p, K=SETS[p][-1], every=7 if not big else 1)))
    return out


# ------------------------------------------------------------------ A02
def a02(h, method, rk=None):
    ns = script(h, "rk_stability.py")
    coeffs, Bm = ns["get_formatted_rk_coeffs"](method)
    coeffs, Bm = np.asarray(coeffs, dtype=float), np.asarray(Bm, dtype=float)
    s = len(coeffs)
    h.true("square table", Bm.shape == (s, s))
    h.true("explicit table", all(Bm[i, j] == 0 for i in range(s) for j in range(i, s)))
    z = h.real("z", -1, 1)
    # det(I - zB + z e b^T) = 1 + z b^T (I - zB)^-1 e for a strictly lower triangular B
    K = []
    amp = 1
    for i in range(s):
        t = 0
        for j in range(i):
            if Bm[i, j]:
                t = t + K[j] * h.const(Fr(float(Bm[i, j])))
        K.append(1 + z * t)
        if coeffs[i]:
            amp = amp + z * K[i] * h.const(Fr(float(coeffs[i])))
    sol = make_solution(h, "advection", 0, 1)
    u0 = h.real("u0", -100, 100)
    sol.u = h.array_from((1, 3), lambda i: u0)
    sol.printer = lambda *a, **k: None
    sol.max_wave_speed = lambda: 1e-6

    class Res:
        def residual(self, q):
            return q.u * z
    h.mod("dg1d.rk").integrate(sol, Deck(rk or method, 1.0), Res(), NoLimiter())
    h.eq("amplification of %s" % method, sol.u[0, 1], u0 * amp, tol=1e-9)


class Contours(Anything):
    """Records what the script draws contours of."""

    def __init__(self):
        super().__init__("plt")
        self.seen = []

    def contour(self, X, Y, Z, levels=None, **k):
        self.seen.append((np.array(X, dtype=float), np.array(Y, dtype=float), np.array(Z, dtype=float), levels))
        path = types.SimpleNamespace(vertices=np.zeros((2, 2)))
        return types.SimpleNamespace(collections=[types.SimpleNamespace(get_paths=lambda: [path])], levels=[1])

    contourf = contour


def a02_contour(h, method, points):
    """The amplification whose unit contour is drawn, at complex points of the grid: for every initial value, one step
    of the integrator multiplies the modulus by it."""
    ns = script(h, "rk_stability.py")
    if "approximate_stability_bndry" not in ns:
        h.skip("no such function")
    ns["np"], ns["plt"] = np, Contours()
    coeffs, Bm = ns["get_formatted_rk_coeffs"](method)
    coeffs, Bm = np.asarray(coeffs, dtype=float), np.asarray(Bm, dtype=float)
    try:
        ns["approximate_stability_bndry"](coeffs, Bm)
    except (AttributeError, TypeError, IndexError):
        pass                                       # what the drawing returned was used differently
    seen = ns["plt"].seen
    if not seen:
        h.skip("no contour drawn")
    h.true("both half planes", len(seen) < 2 or np.array_equal(seen[0][1], -seen[1][1]))
    rk = h.mod("dg1d.rk")
    a, b = h.real("a", -10, 10), h.real("b", -10, 10)
    for X, Y, Z, levels in seen:
        h.true("unit contour", levels is not None and list(np.ravel(levels)) == [1])
        h.true("grid", X.shape == Y.shape == Z.shape)
        near = np.argwhere((Z < 30) & (Z > 0.02))
        for q in range(points):
            i, j = near[(2 * q + 1) * len(near) // (2 * points)]
            x, y = h.const(Fr(float(X[i, j]))), h.const(Fr(float(Y[i, j])))
            sol = make_solution(h, "advection", 0, 2)
            sol.u = h.array([[0, a, b, 0]])
            sol.printer = lambda *a, **k: None
            sol.max_wave_speed = lambda: 1e-6

            class Res:
                def residual(self, s):
                    r, m = s.u[0, 1], s.u[0, 2]
                    return h.array([[0, x * r - y * m, y * r + x * m, 0]])
            sol.apply_bc = lambda: None
            rk.integrate(sol, Deck(method, 1.0), Res(), NoLimiter())
            r, m = sol.u[0, 1], sol.u[0, 2]
            s = Fr(float(Z[i, j])) ** 2
            h.eq("modulus at point %d %d of contour %s" % (i, j, "below" if Y[i, j] < 0 else "above"), r * r + m * m, (a * a + b * b) * h.const(s), tol=1e-5 * max(1, float(s)))


def inst_a02(tier):
    out = [I(B + "a02", dict(method=m), budget=300) for m in ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14")]
    out.append(I(B + "a02", dict(method="other", rk="rk4")))
    for m in ("rk3", "rk4", "rk5", "rk6", "rk8", "rk10", "rk12", "rk14"):
        out.append(I(B + "a02_contour", dict(method=m, points=6 if tier == "quick" else 25), budget=300))
    out.append(I(B + "a02", dict(method="rk4", rk="low_storage_rk4")))
    return out


PROPS = {
    "A01": dict(instances=inst_a01, bounds="all periodic states with coefficients in [-100,100], orders 0..4 (thorough 6), 1..4 cells, also orders 6 and 8 (thorough to 10) without enhancement, enhancement sets %s; plane waves of arbitrary complex amplitude at every seventh (thorough every) wave number of the script" % SETS,
                stubs="the script's definitions are executed without the plots at its end; matplotlib and scipy are stand-ins; nla.eigvals records its matrix in the plane-wave instances",
                outside="eigenvalue computation, sorting and plotting"),
    "A02": dict(instances=inst_a02, bounds="all z in [-1,1] and initial values in [-100,100], all eight tables, the fallback, and low-storage RK4; the drawn modulus at 6 (thorough 25) complex points of each half plane with modulus between 0.02 and 30, all initial values in [-10,10]^2",
                stubs="residual z*u, one step; the determinant is expanded through the triangular recursion after checking that B is strictly lower triangular",
                outside="contouring and plotting; exact_stability_boundary (not called by the script)"),
}
