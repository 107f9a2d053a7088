"""P01, P02: the plotting tools."""
import datetime
import os
import sys
import types

import numpy as np

from symx.harness import Instance as I
from .common import *
from .setup import files, make_written, numbered

B = "plots:"


class Canvas:
    """Stands in for matplotlib.pyplot: records what is drawn where."""

    def __init__(self):
        self.current = 1
        self.drawn = {}
        self.saved = {}
        self.mod = types.ModuleType("matplotlib.pyplot")
        m = self.mod
        m.figure = self.figure
        m.plot = self.plot
        m.loglog = m.semilogx = m.semilogy = self.plot
        m.savefig = lambda name, *a, **k: self.saved.setdefault(name, self.current)
        self.close = m.close = lambda *a, **k: None
        m.gca = m.gcf = lambda *a, **k: self
        for n in ("rc xlabel ylabel title setp xlim ylim show legend text yticks xticks axis grid tight_layout draw ioff ion switch_backend").split():
            setattr(m, n, lambda *a, **k: None)

    @property
    def spines(self):
        return {k: self for k in ("left", "right", "top", "bottom")}

    @property
    def xaxis(self):
        return self

    yaxis = xaxis

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None

    def figure(self, num=None, **k):
        self.current = num if num is not None else max(self.drawn, default=0) + 1
        return self

    def plot(self, *a, **k):
        fmt = ""
        if len(a) == 3:
            fmt = a[2]
        if len(a) == 1:
            a = (range(len(a[0])), a[0])
        style = k.get("marker") or "".join(c for c in fmt if c in "osdph^v")
        self.drawn.setdefault(int(self.current), []).append((style, [v for v in a[0]], [v for v in a[1]]))
        return [None]

    def points(self, fig, style):
        x, y = [], []
        for s, a, b in self.drawn.get(fig, []):
            if s == style:
                x += a
                y += b
        return x, y


def run_tool(h, rel, argv, canvas):
    """Runs a plotting script as a program."""
    path = os.path.join(os.environ.get("DG1D_REPO", "/repo"), rel)
    top = types.ModuleType("matplotlib")
    top.pyplot = canvas.mod
    top.use = lambda *a, **k: None
    top.rc = lambda *a, **k: None
    top.rcParams = {}
    stubs = {"matplotlib": top, "matplotlib.pyplot": canvas.mod}
    old = sys.argv, list(sys.path), os.path.isfile, os.path.exists
    sys.argv = [path] + argv
    try:
        if h.symbolic:
            vfs = h.loader.vfs

            def have(p):
                return os.path.normpath(str(p)) in vfs.files
            os.path.isfile = lambda p: have(p) or old[2](p)
            os.path.exists = lambda p: have(p) or old[3](p)
            h.loader.stubs = stubs
            m = types.ModuleType("__main__")
            m.__file__ = path
            m.__package__ = ""
            h.loader.exec_source(m, open(path).read(), path)
        else:
            import runpy
            sys.modules.update(stubs)
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv, sys.path[:], os.path.isfile, os.path.exists = old
        if h.symbolic:
            h.loader.stubs = {}


def put(h, name, text):
    if h.symbolic:
        h.loader.vfs.files[name] = text
    else:
        os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
        with open(name, "w") as f:
            f.write(text)


def write_outputs(h, system, p, N, steps, sensors):
    """Outputs of a run, each with its own data; admissible densities."""
    sol = make_written(h, system, p, N, ("periodic", "periodic") if system == "advection" else ("zerograd", "zerograd"),
                       **(dict(thresholds=(0.1, 0.1)) if sensors else {}))
    F = nf(system)
    out = {}
    for k in steps:
        u = h.zeros((p + 1, (N + 2) * F))
        for j in range((N + 2) * F):
            for i in range(p + 1):
                if system == "euler" and j % F == 0:
                    # density at least 1 everywhere in the cell
                    u[i, j] = h.real("r%d_%d_%d" % (k, i, j), 2, 4) if i == 0 else h.real("r%d_%d_%d" % (k, i, j), Fr(-1, p), Fr(1, p))
                else:
                    u[i, j] = h.real("u%d_%d_%d" % (k, i, j), -100, 100)
        sol.u = u.copy()
        numbered(h, sol, "%d" % k)
        marks = None
        if sensors:
            marks = [(e * 5 + k) % 3 for e in range(N + 2)]
            for e in range(N + 2):
                sol.sensors.sensors[e] = marks[e]
        sol.printer(k, 0.5)
        out[k] = (u, marks)
    if sensors and 0 not in steps:
        put(h, "sensor%010d.dat" % 0, "0.0,0.0\n")
    return sol, out


def check_points(h, what, got, want, rel=None):
    """Drawn points are the wanted ones; rel(i, y) turns ordinate i into the quantity wanted."""
    gx, gy = got
    h.true("%s: %d points drawn, %d expected" % (what, len(gx), len(want)), len(gx) == len(want) and len(gy) == len(want))
    if len(gx) != len(want) or len(gy) != len(want):
        return False
    for i, (x, y) in enumerate(want):
        h.eq("%s: abscissa %d" % (what, i), gx[i], x, tol=1e-9)
        h.eq("%s: ordinate %d" % (what, i), rel(i, gy[i]) if rel else gy[i], y, tol=1e-8)
    return True


def check_fields(h, what, draws, xs, vals):
    """vals[i]: conserved values at abscissa xs[i]; the figures show density, velocity, pressure.

    Velocity and pressure are compared as momentum and energy, built from what is drawn."""
    if len(draws) == 1:
        check_points(h, what + " of u", draws[0], [(x, v[0]) for x, v in zip(xs, vals)])
        return
    d, v = draws[0][1], draws[1][1]
    if not check_points(h, what + " of the density", draws[0], [(x, w[0]) for x, w in zip(xs, vals)]):
        return
    if not check_points(h, what + " of the velocity", draws[1], [(x, w[1]) for x, w in zip(xs, vals)], lambda i, y: y * d[i]):
        return
    check_points(h, what + " of the pressure", draws[2], [(x, w[2]) for x, w in zip(xs, vals)],
                 lambda i, y: y * h.const(Fr(5, 2)) + d[i] * v[i] * v[i] * h.const(Fr(1, 2)))


def sensor_points(h, canvas, fig, sol, marks, N):
    check_points(h, "sensor plot", canvas.points(fig, "o"), [(sol.xc[e], marks[e + 1]) for e in range(N)])


def p01(h, system, p, N, steps=(0, 3), show=3, sensors=False):
    """The general tool draws node and edge values of every element of the requested output."""
    files(h)
    F = nf(system)
    sol, out = write_outputs(h, system, p, N, steps, sensors)
    c = Canvas()
    run_tool(h, "dg1d/plot.py", ["-f", "%d" % show, "-t", system], c)
    u, marks = out[show]
    xs = gauss(p + 1)[0]
    nodes, edges = ([], []), ([], [])
    for e in range(N):
        cols = [(e + 1) * F + q for q in range(F)]
        v = [node_values(h, u, p, j, xs) for j in cols]
        m, r = sol.xc[e], sol.dx * h.const(Fr(1, 2))
        for g, x in enumerate(xs):
            nodes[0].append(m + r * h.const(x))
            nodes[1].append([w[g] for w in v])
        for s in (-1, 1):
            edges[0].append(m + s * r)
            edges[1].append([trace(u, p, j, s) for j in cols])
    check_fields(h, "node values", [c.points(f, "o") for f in range(F)], *nodes)
    check_fields(h, "edge values", [c.points(f, "s") for f in range(F)], *edges)
    if system == "advection":
        ex = [d for d in c.drawn.get(0, []) if d[0] == ""]
        h.true("one exact curve", len(ex) == 1)
        for x, y in zip(ex[0][1], ex[0][2]):
            h.true("exact curve", abs(float(y) - np.sin(2 * np.pi * float(x))) < 1e-12)
    if sensors:
        sensor_points(h, c, F, sol, marks, N)
    else:
        h.true("no sensor plot", not c.points(F, "o")[0])


def p01_tubes(h, p, N, steps=(0, 1), show=1, sensors=False):
    """The shock-tube tool draws the cell averages next to the exact solution."""
    files(h)
    sol, out = write_outputs(h, "euler", p, N, steps, sensors)
    table = [[h.real("exact%d_%d" % (i, j), -100, 100) for j in range(4)] for i in range(3)]
    put(h, "exact.txt", "".join(",".join(h.token(v) for v in row) + "\n" for row in table))
    c = Canvas()
    run_tool(h, "regressions/plot.py", ["-f", "%d" % show, "-d", "."], c)
    u, marks = out[show]
    figs = []
    for f, name in enumerate(("density", "velocity", "pressure")):
        h.true("%s is saved" % name, name + ".png" in c.saved)
        figs.append(c.saved.get(name + ".png"))
        check_points(h, "exact " + name, c.points(figs[f], ""), [(row[0], row[f + 1]) for row in table])
    check_fields(h, "cell averages", [c.points(f, "o") for f in figs], list(sol.xc),
                 [[u[0, (e + 1) * 3 + q] for q in range(3)] for e in range(N)])
    if sensors:
        h.true("sensors are saved", "sensors.png" in c.saved)
        sensor_points(h, c, c.saved.get("sensors.png"), sol, marks, N)
    else:
        h.true("no sensor plot", "sensors.png" not in c.saved)


def p02(h, res, flat=False):
    """The convergence study: for every order, errors and run times of all resolutions found on disk."""
    files(h)
    sums, secs = {}, {}
    for p in (1, 2, 3, 4):
        for n in res:
            rows = {}
            for k in (0, 1, 9, 10):
                rows[k] = [h.real("u%d_%d_%d_%d" % (p, n, k, i), -2, 2) for i in range(n)]
                text = ""
                for i in range(n):
                    more = [h.real("m%d_%d_%d_%d" % (p, n, k, i), -2, 2)] if k in (0, 10) else [h.const(Fr(k))]
                    x = -1 + (2 * i + 1) / n
                    text += ",".join(["%.18e" % x, h.token(rows[k][i])] + [h.token(more[0])] * p) + "\n"
                put(h, "%d/%d/u%010d.dat" % (p, n, k), text)
            sums[p, n] = sum(((a - b) * (a - b) for a, b in zip(rows[0], rows[10])), h.const(0))
            # otherwise the study has nothing to draw (logarithms)
            h.assume(rows[0][0] - rows[10][0] >= Fr(1, 100))
            secs[p, n] = (7 * p + n) / 8 + (100000 if n == max(res) and p == 2 else 0)
            put(h, "%d/%d/logfile" % (p, n), "Code version:  abc\nIntegrating the solution in time.\nElapsed time %s (or %f seconds)\n"
                % (datetime.timedelta(seconds=secs[p, n]), secs[p, n]))
    c = Canvas()
    run_tool(h, "advection_convergence/plot.py", [], c)
    want = sorted(res)
    for name, xs in (("convergence", lambda p: [float(n) for n in want]), ("efficiency", lambda p: [secs[p, n] for n in want])):
        fig = c.saved.get(name + ".pdf")
        h.true(name + " is saved", fig is not None)
        curves = [d for d in c.drawn.get(fig, []) if d[0]]
        h.true("%s: one curve of errors for each order" % name, len(curves) == 4)
        for p, (_, x, y) in zip((1, 2, 3, 4), curves):
            h.true("%s: one point for each resolution" % name, len(x) == len(y) == len(want))
            for i, n in enumerate(want):
                h.eq("%s of order %d: abscissa %d" % (name, p, i), x[i], h.const(Fr(xs(p)[i])), tol=1e-6)
                h.eq("%s of order %d: squared error %d" % (name, p, i), y[i] * y[i], sums[p, n] * h.const(Fr(1, 4 * n)), tol=1e-8)
                h.le("%s of order %d: sign of error %d" % (name, p, i), 0, y[i])
    fig = c.saved.get("convergence.pdf")
    curves = [d for d in c.drawn.get(fig, []) if d[0]]
    lines = [d for d in c.drawn.get(fig, []) if not d[0]]
    h.true("one reference line for each order", len(lines) == 4)
    for p, (_, x, y), (_, _, err) in zip((1, 2, 3, 4), lines, curves):
        for i, n in enumerate(want):
            h.eq("reference of order %d: abscissa %d" % (p, i), x[i], h.const(n), tol=1e-9)
            h.eq("reference of order %d: ordinate %d" % (p, i), y[i], err[0] * h.const(Fr(want[0], n) ** (2 * p + 1)), tol=1e-8)


def inst_p02(tier):
    sets = [[4, 8], [10, 2, 4], [3], [100, 2]] if tier == "quick" else [[4, 8, 16, 32], [10, 2, 4], [3], [200, 2], [9, 3, 11, 10], [16, 128]]
    return [I(B + "p02", dict(res=r)) for r in sets]


def inst_p01(tier):
    big = tier != "quick"
    out = []
    for s in ("advection", "euler"):
        for p in range(6 if big else 4):
            out.append(I(B + "p01", dict(system=s, p=p, N=3 if p < 2 else 2, sensors=bool(p % 2))))
        out.append(I(B + "p01", dict(system=s, p=1, N=2, steps=[0, 3, 12], show=0, sensors=True)))
        out.append(I(B + "p01", dict(system=s, p=0, N=2, steps=[2, 12, 102, 54312], show=54312, sensors=True)))
        out.append(I(B + "p01", dict(system=s, p=1, N=2, steps=[2, 12, 0], show=12, sensors=True)))
        out.append(I(B + "p01", dict(system=s, p=0, N=9 if not big else 20, steps=[7], show=7)))
    out.append(I(B + "p01", dict(system="advection", p=0, N=310 if not big else 700, steps=[1], show=1)))
    out.append(I(B + "p01_tubes", dict(p=0, N=210 if not big else 500, steps=[1], show=1)))
    for p in range(4 if big else 3):
        out.append(I(B + "p01_tubes", dict(p=p, N=2 + p, sensors=not p % 2)))
    out.append(I(B + "p01_tubes", dict(p=1, N=2, steps=[2, 0, 12], show=12, sensors=True)))
    return out


PROPS = {
    "P01": dict(instances=inst_p01, bounds="all coefficients (densities at least 1), meshes with left end in [-2,2] and length in [1/2,4], both systems, orders 0..3 (thorough 5), 2..9 (thorough 20) and 310 cells, up to four outputs on disk, with and without sensor files",
                stubs="matplotlib replaced by a recorder of what is drawn; text files kept in memory with symbolic numbers",
                outside="the look of the plots; a ratio of specific heats other than 1.4 (not stored in the files)"),
    "P02": dict(instances=inst_p02, bounds="all cell averages and higher coefficients in [-2,2] (first cells differing by at least 1/100), all four orders of the study, 1..3 resolutions of 2..10 and 100 cells (thorough up to 200) in any order on disk, run times up to more than a day",
                stubs="matplotlib replaced by a recorder of what is drawn; text files kept in memory with symbolic numbers",
                outside="advection_convergence/run.py, which only launches runs with fixed settings; printed slopes"),
}
