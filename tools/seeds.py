"""Planted bugs.  Each: id, property, edits (file, old, new[, occurrence]), needs, what, demo."""
SEEDS = []


def seed(id, prop, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))


S = "dg1d/solution.py"
EU = "dg1d/euler_physics.py"
RK = "dg1d/rk.py"

SOL = '''
import dg1d.solution as solution
import dg1d.dg as dg
rng = np.random.RandomState(3)


def euler(line, p, riemann="", enh="", thr=[]):
    s = quiet(solution.Solution, line, "euler", p, riemann, enh, thr)
    n = s.u.shape[1] // 3
    s.u[:, 0::3] = 0.1 * rng.rand(p + 1, n)
    s.u[:, 1::3] = 0.1 * rng.rand(p + 1, n)
    s.u[:, 2::3] = 0.1 * rng.rand(p + 1, n)
    s.u[0, 0::3] += 1.0
    s.u[0, 2::3] += 3.0
    return s


def res(s):
    return quiet(dg.DG, s).residual(s).copy()

'''

seed("s01-edges", "S01", [("dg1d/basis.py", "psi[0, 1::2] = -1", "psi[0, 1:4:2] = -1")],
     "order 5 or higher", "the left edge value of P5, P7 has the wrong sign, so face values and fluxes are wrong from order 5 on", '''
import dg1d.basis as basis
from numpy.polynomial import legendre as leg
ok = True
for p in range(0, 9):
    b = quiet(basis.Basis, p)
    c = np.arange(1.0, p + 2)
    ok &= close(b.psi.dot(c), leg.legval(np.array([-1.0, 1.0]), c))
done(ok)
''')
seed("s01-minv-mesh", "S01", [(S, "self.scaled_minv = self.basis.minv * 2.0 / self.dx\n\n    # ========================================================================\n    def populate", "self.scaled_minv = self.basis.minv * self.N_E\n\n    # ========================================================================\n    def populate")],
     "a domain whose length is not 2 (simple wave, Shu-Osher)", "the inverse mass matrix assumes a domain of length two", SOL + '''
ok = True
for line, L in (("simplew 8", 8.0), ("shuoshe 5", 10.0), ("entrpyw 6", 2.0)):
    s = quiet(solution.Solution, line, "euler", 2)
    n = int(line.split()[1])
    ok &= close(s.scaled_minv, (2 * np.arange(3) + 1) / (L / n))
done(ok)
''')
seed("s03-sonic-nan", "S03", [(EU, "idx = ws0 < 0.5 * Da\n", "idx = ws0 <= 0.5 * Da\n")],
     "a uniform flow exactly at v = a (Roe)", "the entropy fix divides by zero where the eigenvalue and its spread both vanish", SOL + '''
import dg1d.constants as constants
s = euler("scktube 4 0.0 1.0 0.0 1.0 1.0 0.0 1.0", 1, "roe")
constants.gamma = 1.4
s.u[:] = 0
rho, p = 1.4, 1.0
v = 1.0
s.u[0, 0::3], s.u[0, 1::3], s.u[0, 2::3] = rho, rho * v, p / 0.4 + 0.5 * rho * v * v
R = res(s)[:, 3:-3]
done(close(R, np.zeros(R.shape)))
''')
seed("s06-central", "S06", [("dg1d/advection_physics.py", "    return ul\n", "    return np.where(np.fabs(ul - ur) > 1.0, 0.5 * (ul + ur), ul)\n")],
     "an advected jump larger than one", "large jumps are transported with a central flux, so they are not damped", SOL + '''
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.u[:] = 0
s.u[0, 1:5] = [0, 3, 0, -3]
s.u[1, 1:5] = [0.5, 0.2, -0.4, 1]
u = s.u[:, 1:5].copy()
R = res(s)[:, 1:5]
m = np.array([2.0, 2.0 / 3])[:, None] * 0.25
E = (m * u * R).sum()
lf, rf = u[0] - u[1], u[0] + u[1]
J = lf - np.roll(rf, 1)
done(close(E, -0.5 * (J ** 2).sum()))
''')
seed("f02-sonic-leftover", "F02", [(EU, "            elif (SmR < 0) and (vR[i] + aR[i] > 0):\n                rmI, Um2, Um3 = sonic(\n                    vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)",
      "            elif i == 0 or ((SmR < 0) and (vR[i] + aR[i] > 0)):\n                rmI, Um2, Um3 = sonic(\n                    vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)\n            if (SmL > 0) and (vL[i - 1] > vL[i]) and i > 0:\n                Um2 = rmI * vm")],
     "Godunov, an interface whose left neighbour moves faster, with a supersonic middle state", "the flux of an interface depends on the interface before it", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 1.4
rng = np.random.RandomState(1)
def st(r, v, p):
    return [r, r * v, p / 0.4 + 0.5 * r * v * v]
ok = True
for k in range(300):
    a = st(1, 2.5, 1); b = st(1, 2.4, 1)
    l = st(0.2 + rng.rand(), 1 + 1.5 * rng.rand(), 0.2 + 2 * rng.rand()); r = st(0.2 + rng.rand(), 1 + 2 * rng.rand(), 0.2 * rng.rand() + 0.05)
    F = ep.riemann_godunov(np.array(a + l), np.array(b + r))
    ok &= close(F[3:], ep.riemann_godunov(np.array(l), np.array(r)))
done(ok)
''')
seed("f03-godunov-left", "F03", [(EU, "            F[i * 3 + 2] = (ER[i] + pR[i]) * vR[i]", "            F[i * 3 + 2] = (ER[i] + pL[i]) * vR[i]")],
     "Godunov, both states supersonic to the left with different pressures", "the energy flux of a left-running supersonic interface uses the downstream pressure", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 1.4
def st(r, v, p):
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
L, R = st(1.0, -3.0, 1.0), st(2.0, -4.0, 2.0)
F = ep.riemann_godunov(L.copy(), R.copy())
done(close(F, [-8.0, 34.0, -4.0 * (R[2] + 2.0)]))
''')
seed("f04-contact-sonic", "F04", [(EU, "amR = np.sqrt(constants.gamma * pm2 / rm[1])", "amR = np.sqrt(constants.gamma * pm2 / rm[0])")],
     "Godunov, a contact moving left with a heavier gas on the left, subsonic on the right but supersonic for the left sound speed", "the sound speed behind the right wave is taken from the wrong side of the contact", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 1.4
def st(r, v, p):
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
v = -0.8
L, R = st(10.0, v, 1.0), st(1.0, v, 1.0)
F = ep.riemann_godunov(L.copy(), R.copy())
done(close(F, [v, v * v + 1.0, (R[2] + 1) * v], 1e-6))
''')
seed("f07-pressure-floor", "F07", [(EU, "wave_speed = np.fabs(v) + np.sqrt(constants.gamma * p / rho)", "wave_speed = np.fabs(v) + np.sqrt(constants.gamma * np.maximum(p, 1e-4) / rho)")],
     "a flow computed in units in which the pressure is small", "an absolute pressure floor in the wave speed ties the result to the units", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 1.4
u = np.array([[1.0, 0.5, 2.5, 1.2, 0.1, 2.0]])
a = ep.max_wave_speed(u)
done(close(ep.max_wave_speed(u * 1e-6), a))
''')
seed("l01-remainder", "L01", [("dg1d/limiting.py", "        alim[0] = avgLC\n", "        alim[0] = avgLC if N < 4 else ac[0]\n")],
     "limiting at order 4 or higher", "the first Taylor coefficient is kept instead of the cell average at high order", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 3", "advection", 4, "", "", [0.01])
l = quiet(limiting.Limiter, "adaptive_hr", s)
u = rng.rand(5, 3) - 0.5
v = l.hr(u[:, 1], u[:, 0], u[:, 2])
done(close(v[0], u[0, 1]))
''')
seed("l02-freeze", "L02", [("dg1d/limiting.py", "if solution.sensors.sensors[e] != 0:", "if solution.sensors.sensors[e] != 0 and solution.sensors.sensors[e + 1] + solution.sensors.sensors[e - 1] != 0:")],
     "an isolated flagged cell: three flagged cells never are, but with thresholds set by hand one is", "a flagged cell without a flagged neighbour is not limited", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 5", "advection", 1, "", "", [0.5])
s.bc_l = s.bc_r = 'zerograd'
l = quiet(limiting.Limiter, "adaptive_hr", s)
s.u[0, 1:-1] = [0, 0.1, 0.2, 0.3, 0.4]
s.u[1, 1:-1] = 2.0
def sense(sensors, thr, sol):
    sensors[3] = 1
s.keywords['sensing'] = sense
l.limit(s)
done(close(s.u[1, 3], 0.05))
''')
seed("l06-node-range", "L06", [("dg1d/limiting.py", "V[i, j] = x[i]**j / np.math.factorial(j)", "V[i, j] = x[i]**j / np.math.gamma(max(j, 1) if j > 4 else j + 1)")],
     "limiting at order 5 or higher", "the Taylor form of the fifth and higher derivatives is off by a factor", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 3", "advection", 5, "", "", [0.01])
l = quiet(limiting.Limiter, "adaptive_hr", s)
from numpy.polynomial import legendre as leg
c = np.array([0.1, 0.2, 0.3, 0.4, 0.5, 0.6])
t = l.legendre_to_monomial(c)
import math
q = leg.leg2poly(c)
done(close(t, [q[k] * math.factorial(k) for k in range(6)], 1e-8))
''')
seed("t01-restart", "T01", [(RK, "tout_array = iter(np.linspace(solution.t, deck.finaltime, deck.nout)[1:])", "tout_array = iter(np.linspace(0.0, deck.finaltime, deck.nout)[1:])", 0)],
     "a run that does not start at time zero", "output times are laid out from zero instead of from the start time", '''
import dg1d.solution as solution, dg1d.dg as dg, dg1d.rk as rk, dg1d.limiting as limiting, dg1d.deck as deck
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.t = 0.6
d = quiet(deck.Deck); d.rk = "rk4"; d.finaltime = 1.0; d.nout = 3
t = []
s.printer = lambda n, dt: t.append(s.t)
quiet(rk.integrate, s, d, quiet(dg.DG, s), quiet(limiting.Limiter, "", s))
done(close(t, [0.6, 0.8, 1.0]))
''')
seed("t02-overshoot", "T02", [(RK, "    elif dt > tout - t:", "    elif dt > (tout - t) * 1.0000001:")],
     "a stable step longer than the time to the next output by less than one part in ten million", "such a step runs past the output time", '''
import dg1d.rk as rk
dt, o, d = rk.adjust_for_output(0.5 * 1.00000005, 0.0, 10.0, 0.5)
done(dt <= 0.5 and o)
''')
seed("t05-gamma", "T05", [(RK, "    gammas = [1. / 6., 1. / 3., 1. / 3., 1. / 6.]", "    gammas = [1. / 6., 2. / 6., 2. / 6., 1. - 0.83]")],
     "the low-storage option", "the last weight is rounded", '''
import dg1d.solution as solution, dg1d.dg as dg, dg1d.rk as rk, dg1d.limiting as limiting, dg1d.deck as deck
out = []
for name in ("rk4", "low_storage_rk4"):
    s = quiet(solution.Solution, "sinewave 6", "advection", 2)
    s.printer = lambda n, dt: None
    d = quiet(deck.Deck); d.rk = name; d.finaltime = 0.3; d.nout = 2
    quiet(rk.integrate, s, d, quiet(dg.DG, s), quiet(limiting.Limiter, "", s))
    out.append(s.u.copy())
done(close(out[0], out[1]))
''')
seed("t06-low-storage", "T06", [(RK, "            if k > 0:\n                limiter.limit(ustar)", "            if k > 1:\n                limiter.limit(ustar)")],
     "the low-storage option with limiting", "the second stage is evaluated on an unlimited state", '''
import dg1d.solution as solution, dg1d.dg as dg, dg1d.rk as rk, dg1d.deck as deck
calls = []
class Lim:
    def limit(self, s):
        calls.append("limit")
class Res:
    def residual(self, s):
        calls.append("residual")
        return 0 * s.u
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.printer = lambda n, dt: None
s.max_wave_speed = lambda: 1e-6
d = quiet(deck.Deck); d.rk = "low_storage_rk4"; d.finaltime = 0.3; d.nout = 2
quiet(rk.integrate, s, d, Res(), Lim())
done(calls == ["residual"] + ["limit", "residual"] * 3 + ["limit"])
''')
seed("i01-edge-nodes", "I01", [("dg1d/basis.py", "        return 0.5 * (b - a) * self.x + 0.5 * (b + a)", "        return b * 0.5 * (1 + self.x) - a * 0.5 * (self.x - 1) if self.p < 3 else np.linspace(a, b, self.p + 3)[1:-1] if b - a > 4 else 0.5 * (b - a) * self.x + 0.5 * (b + a)")],
     "order 3 or higher on cells wider than four", "wide cells are sampled at equally spaced points but fitted at the Gauss nodes", '''
import dg1d.basis as basis
b = quiet(basis.Basis, 3)
c = b.projection(0.0, 5.0, lambda x: [x])
done(close(c, [2.5, 2.5, 0, 0]))
''')
seed("i02-simplew", "I02", [(S, "            a = 1 - (constants.gamma - 1) / 2 * np.fabs(u)", "            a = 1 - (constants.gamma - 1) / 2 * u")],
     "the simple wave problem", "the left-moving wave gets a larger instead of a smaller sound speed", '''
import dg1d.solution as solution
s = quiet(solution.Solution, "simplew 8", "euler", 0)
rho = s.u[0, 3:-3:3]
done(close(rho, rho[::-1]))
''')
seed("i02-gamma", "I02", [("dg1d/constants.py", "    global gamma\n    gamma = 1.4", "    global gamma\n    gamma = globals().get('gamma', 1.4)")],
     "an entropy or acoustic wave set up after a simple wave in the same session", "the ratio of specific heats of an earlier problem stays in force", '''
import dg1d.solution as solution, dg1d.constants as constants
quiet(solution.Solution, "simplew 8", "euler", 0)
s = quiet(solution.Solution, "entrpyw 8", "euler", 0)
done(constants.gamma == 1.4 and close(s.u[0, 5:-3:3] - 0.5 * s.u[0, 3:-3:3], 2.5 * np.ones(8)))
''')
seed("i03-negative-time", "I03", [(S, "            self.n = int(line[1])", "            self.n = int(line[1]) % 100000")],
     "a step count above 99999", "the step count of long runs wraps around on loading", '''
import dg1d.solution as solution
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.n = 123456
quiet(s.printer, 0, 0.0)
o = quiet(solution.Solution, "empty", "advection", 0)
quiet(o.loader, 0)
done(o.n == 123456)
''')
seed("i04-extend", "I04", [("dg1d/deck.py", "                    self.sensor_thresholds = [float(i) for i in line.split()]", "                    self.sensor_thresholds.extend(float(i) for i in line.split())")],
     "a deck that sets the thresholds twice", "a later threshold section is appended to the earlier one", '''
import dg1d.deck as deck
d = quiet(deck.Deck)
quiet(d.parser, deck.write_deck(".", [("sensor thresholds", "0.1 0.2"), ("order", "2"), ("sensor thresholds", "0.3 0.4")]))
done(d.sensor_thresholds == [0.3, 0.4])
''')
seed("i05-godunov-name", "I05", [(S, "            elif riemann_solver == 'godunov':", "            elif riemann_solver.startswith('godunov') and system != 'euler':")],
     "a deck asking for the Godunov solver", "asking for Godunov silently gives Roe", '''
import dg1d.solution as solution, dg1d.euler_physics as ep
s = quiet(solution.Solution, "entrpyw 4", "euler", 1, "godunov")
done(s.keywords['riemann'] is ep.riemann_godunov)
''')
seed("i05-rk5", "I05", [(RK, "coeffs, alphas, betas = rkc.get_rk5_coefficients()", "coeffs, alphas, betas = rkc.get_rk6_coefficients()")],
     "a deck asking for rk5", "rk5 runs the sixth order table", '''
import dg1d.rk as rk, dg1d.rk_coeffs as rkc
class D: rk = "rk5"
seen = []
rk.classic_rk = lambda s, d, g, l, c, a, b: seen.append(len(c))
quiet(rk.integrate, None, D, None, None)
done(seen == [len(rkc.get_rk5_coefficients()[0])])
''')
seed("b01-fixed-quadrature", "B01", [("dg1d/basis.py", "    # Multiplication\n    mul = l1 * l2\n\n    # Integration\n    imul = mul.integ()\n\n    # Evaluate the integral from [-1,1]\n    return imul(1) - imul(-1)", "    # Integrate with a Gauss rule (much faster than building the product)\n    x, w = leg.leggauss(4)\n    return np.sum(w * l1(x) * l2(x))")],
     "products of degree eight and higher", "the fixed quadrature rule is exact up to degree seven only", '''
import dg1d.basis as basis
from numpy.polynomial import Legendre as L
done(close(basis.integrate_legendre_product(L.basis(4), L.basis(4)), 2.0 / 9))
''')
seed("e01-listing", "E01", [("dg1d/enhance.py", "        self.modes.sort()\n", "        self.modes = self.modes[::-1] if self.modes[0] > self.modes[-1] else self.modes\n")],
     "three or more modes listed in a mixed order", "modes listed neither upwards nor downwards are matched with the wrong coefficients", '''
import dg1d.enhance as enhance
u = np.random.RandomState(0).rand(3, 4)
a = quiet(enhance.Enhance, 2, "icb 0 1 2", 4).face_value(u, 1).copy()
b = quiet(enhance.Enhance, 2, "icb 1 0 2", 4).face_value(u, 1).copy()
done(close(a, b))
''')
seed("a02-table", "A02", [("analysis/rk_stability.py", "    elif method == 'rk12':\n        coeffs, alphas, betas = rkc.get_rk12_coefficients()", "    elif method == 'rk12':\n        coeffs, alphas, betas = rkc.get_rk10_coefficients()")],
     "plotting the stability region of rk12", "the region shown for rk12 is that of rk10", '''
import ast
import dg1d.rk_coeffs as rkc
tree = ast.parse(open(os.path.join(root, "analysis", "rk_stability.py")).read())
tree.body = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == "get_formatted_rk_coeffs"]
ns = dict(np=np, rkc=rkc)
exec(compile(tree, "s", "exec"), ns)
c, B = ns["get_formatted_rk_coeffs"]("rk12")
done(len(c) == len(rkc.get_rk12_coefficients()[0]))
''')
seed("s04-sensor-last", "S04", [(EU, "    ul = solution.u[0, :-solution.N_F]\n    ur = solution.u[0, solution.N_F:]\n", "    ul = solution.u[0, :-2 * solution.N_F]\n    ur = solution.u[0, solution.N_F:-solution.N_F]\n")],
     "a jump across the right end of the domain", "the Euler sensors do not look at the last interface", SOL + '''
def flags(shift):
    s = quiet(solution.Solution, "entrpyw 6", "euler", 0, "", "", [0.05, 0.05])
    r = np.roll(np.array([1.0, 1, 3, 3, 3, 1]), shift)
    s.u[0, 3:-3:3] = r
    s.u[0, 4:-3:3] = r
    s.u[0, 5:-3:3] = 2.5 + 0.5 * r
    s.apply_bc()
    s.sensors.sensing(s)
    return list(np.roll(s.sensors.sensors[1:-1], -shift))
done(all(flags(k) == flags(0) for k in range(6)))
''')
seed("f01-air", "F01", [(EU, "                Um3 = pm2 / (constants.gamma - 1) + 0.5 * rmI * vm * vm", "                Um3 = pm2 / 0.4 + 0.5 * rmI * vm * vm")],
     "Godunov with a ratio of specific heats other than 1.4 (simple wave)", "the energy of the middle state is that of air whatever the gas", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 3.0
U = np.array([1.0, 0.2, 1.0 / 2 + 0.5 * 0.04])
F = ep.riemann_godunov(U.copy(), U.copy())
done(close(F, [0.2, 0.04 + 1.0, (U[2] + 1.0) * 0.2], 1e-6))
''')
seed("f05-air", "F05", [(EU, "    a = np.sqrt((constants.gamma - 1) * (H - 0.5 * v * v))\n    dp = pR - pL", "    a = np.sqrt(0.4 * (H - 0.5 * v * v))\n    dp = pR - pL")],
     "Roe with a ratio of specific heats other than 1.4 (simple wave)", "the Roe sound speed is that of air whatever the gas", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = g = 3.0
M = 1.5
r1, p1 = 1.0, 1.0 / 3
v1 = M
r2 = r1 * (g + 1) * M * M / ((g - 1) * M * M + 2)
p2 = p1 * (1 + 2 * g / (g + 1) * (M * M - 1))
v2 = r1 * v1 / r2
def st(r, v, p):
    return np.array([r, r * v, p / (g - 1) + 0.5 * r * v * v])
L, R = st(r1, v1, p1), st(r2, v2, p2)
F = ep.riemann_roe(L.copy(), R.copy())
done(close(F, [r1 * v1, r1 * v1 * v1 + p1, (L[2] + p1) * v1], 1e-8))
''')
seed("f06-jets", "F06", [(EU, "    maxvap = np.maximum(np.fabs(vL) + aL, np.fabs(vR) + aR)\n", "    maxvap = np.maximum(np.fabs(vL) + aL, np.fabs(vR) + aR)\n    maxvap = np.where(vL * vR < -10 * aL * aR, 0.5 * np.fabs(vL - vR), maxvap)\n")],
     "Rusanov, two strongly supersonic opposed streams", "the sound speed is left out of the dissipation for opposed supersonic streams", '''
import dg1d.euler_physics as ep, dg1d.constants as constants
constants.gamma = 1.4
def st(r, v, p):
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
L, R = st(1.4, -4.0, 1.0), st(1.4, 4.0, 1.0)
F = ep.riemann_rusanov(L.copy(), R.copy())
done(close(F[1], 1.4 * 16 + 1 - 0.5 * 5 * 1.4 * 8))
''')
seed("l03-remainder", "L03", [("dg1d/limiting.py", "                if(n >= m + 1):\n                    avgRL += alim[n] \\", "                if(m + 1 <= n <= m + 2):\n                    avgRL += alim[n] \\")],
     "limiting at order 4 or higher", "the remainder polynomial is cut after two terms", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 3", "advection", 4, "", "", [0.01])
l = quiet(limiting.Limiter, "adaptive_hr", s)
from numpy.polynomial import legendre as leg, polynomial as P
def cell(c):
    q = P.Polynomial([0, 1, 0, 1, 0.2])(P.Polynomial([2.0 * c, 1]))
    return leg.poly2leg(np.append(q.coef, np.zeros(5))[:5])
done(close(l.hr(cell(2), cell(1), cell(3)), cell(2)))
''')
seed("l04-power", "L04", [("dg1d/limiting.py", "    return (b**num - a**num) / np.math.factorial(num)", "    return (b**num - a**num) / np.math.factorial(min(num, 5))")],
     "limiting at order 5 or higher", "the factorials in the neighbour integrals stop at 5!", '''
import dg1d.limiting as limiting
done(close(limiting.integrate_monomial_derivative_bounds(0, 6, 1, 3), (3.0 ** 7 - 1) / 5040))
''')
seed("l05-noise-floor", "L05", [("dg1d/limiting.py", "    return sorted([a, b, 0])[1]", "    m = sorted([a, b, 0])[1]\n    return m if abs(m) > 1e-13 else 0.0")],
     "data of tiny amplitude", "slopes below an absolute size are dropped, so limiting depends on the units", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 3", "advection", 1, "", "", [0.01])
l = quiet(limiting.Limiter, "adaptive_hr", s)
a, b, c = np.array([0.0, 0.3]), np.array([1.0, 0.7]), np.array([2.0, 0.1])
v = l.hr(b, a, c)
w = l.hr(b * 1e-14, a * 1e-14, c * 1e-14)
done(close(w * 1e14, v))
''')
seed("n01-clip", "N01", [("dg1d/advection_physics.py", "phi = np.fabs(ur - ul)", "phi = np.minimum(np.fabs(ur - ul), 1.0)")],
     "advection with limiting and jumps larger than one", "jumps above one are treated as one", '''
import dg1d.solution as solution
s = quiet(solution.Solution, "sinewave 4", "advection", 0, "", "", [0.45])
s.u[0, :] = [0, 0, 4, 4, 4, 4]
s.sensors.sensing(s)
done(list(s.sensors.sensors) == [0, 0, 0, 0, 0, 0])
''')
seed("n02-converge", "N02", [(EU, "        vL - aL > v - a) & (v - a > vR - aR)))", "        vL - aL > v - a)))")],
     "a pressure jump whose acoustic speeds converge on the left of the Roe speed only", "the shock sensor checks one side only", '''
import dg1d.solution as solution
s = quiet(solution.Solution, "scktube 2 0.0 1 0 1 1 0 1", "euler", 0, "", "", [10.0, 0.01])
def st(r, v, p):
    return [r, r * v, p / 0.4 + 0.5 * r * v * v]
rng = np.random.RandomState(0)
ok = True
for k in range(4000):
    q = rng.rand(6)
    L, R = (0.3 + 3 * q[0], 4 * q[1] - 2, 0.2 + 3 * q[2]), (0.3 + 3 * q[3], 4 * q[4] - 2, 0.2 + 3 * q[5])
    s.u[0, :] = st(*L) * 2 + st(*R) * 2
    s.sensors.sensing(s)
    aL, aR = (np.sqrt(1.4 * w[2] / w[0]) for w in (L, R))
    RT = np.sqrt(R[0] / L[0])
    v = (L[1] + RT * R[1]) / (1 + RT)
    H = (3.5 * L[2] / L[0] + 0.5 * L[1] ** 2 + RT * (3.5 * R[2] / R[0] + 0.5 * R[1] ** 2)) / (1 + RT)
    a = np.sqrt(0.4 * (H - 0.5 * v * v))
    phi = abs(R[2] - L[2]) / (R[2] + L[2])
    want = 2 * phi / (1 + phi) ** 2 > 0.01 and L[1] - aL > v - a > R[1] - aR
    ok &= (s.sensors.sensors[1] == 2) == bool(want)
done(ok)
''')
seed("t03-negative", "T03", [(RK, "    if dt < 1e-14:", "    if abs(dt) < 1e-14:")],
     "a negative time step (negative wave speed)", "a negative time step is not refused", '''
import dg1d.rk as rk
try:
    rk.sanity_check_dt(-0.1, 3, 0.5)
    ok = False
except SystemExit:
    ok = True
done(ok)
''')
seed("t07-cap", "T07", [(RK, "return solution.dx * cfl / (v * (2 * solution.basis.p + 1))", "return solution.dx * cfl / (v * (2 * min(solution.basis.p, 4) + 1))")],
     "order 5 or higher", "the stable step stops shrinking with the order", '''
import dg1d.solution as solution, dg1d.rk as rk
ok = True
for p in range(8):
    s = quiet(solution.Solution, "sinewave 4", "advection", p)
    ok &= close(rk.cfl_time_step(s, 0.5), 0.25 / (2 * p + 1))
done(ok)
''')
seed("i03-format", "I03", [(S, "            np.savetxt(fname, xc_u, fmt='%.18e', delimiter=',', header=hline)", "            np.savetxt(fname, xc_u, fmt='%.15e', delimiter=',', header=hline)")],
     "any coefficient that needs seventeen digits", "files hold sixteen digits, so a loaded solution differs from the written one in the last bits", '''
import dg1d.solution as solution
s = quiet(solution.Solution, "sinewave 7", "advection", 3)
quiet(s.printer, 0, 0.0)
o = quiet(solution.Solution, "empty", "advection", 0)
quiet(o.loader, 0)
done(bool(np.all(o.u[:, 1:-1] == s.u[:, 1:-1])))
''')
seed("a01-test-side", "A01", [("analysis/dg_stability.py", "            G0[i, j] = leg.legval(-1, li.coef) * \\\n                leg.legval(1, lj.coef) * (T**-1)", "            G0[i, j] = leg.legval(-1, li.coef) * \\\n                leg.legval(-1, lj.coef) * (T**-1)", 1)],
     "the enhanced scheme", "the enhanced upstream flux is evaluated at the wrong end of the cell", '''
import ast
import dg1d.solution as solution, dg1d.dg as dg
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.join(root, "analysis"))
import sympy as smp
from numpy.polynomial import legendre as leg, Legendre as L
import aux_functions as auxf
import dg1d.basis as basis, dg1d.enhance as enhance
ns = dict(np=np, smp=smp, leg=leg, L=L, auxf=auxf, basis=basis, enhance=enhance)
tree = ast.parse(open(os.path.join(root, "analysis", "dg_stability.py")).read())
tree.body = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
exec(compile(tree, "s", "exec"), ns)
T = smp.Symbol("T")
Minv, F, G0, G1 = quiet(ns["icb_matrices"], 1, [0], T)
g, h = (np.array(G.subs(T, -1).tolist(), dtype=float) for G in (G0, G1))
c = np.array([0.3, 0.7])
s = quiet(solution.Solution, "sinewave 2", "advection", 1, "", "icb 0")
s.u[:, 1], s.u[:, 2] = c, -c
R = quiet(dg.DG, s).residual(s)[:, 1]
done(close(Minv.dot(F - h + g).dot(c) * 2.0 / s.dx, R))
''')
seed("t04-table", "T04", [("dg1d/rk_coeffs.py", "    betas[20,  4] = 0.483171167561032899288836480451962508724109257517289177302380", "    betas[20,  4] = 0.483171176561032899288836480451962508724109257517289177302380")],
     "the rk12 scheme and time steps small enough for its order to show", "two digits of one coefficient are swapped", """
import dg1d.rk_coeffs as rkc
from fractions import Fraction
c, a, b = rkc.get_rk12_coefficients()
done(abs(float(np.sum(b[20, :20])) - a[20]) < 1e-12)
""")

# ------------------------------------------------------------------ second batch
AD = "dg1d/advection_physics.py"
LI = "dg1d/limiting.py"
DGF = "dg1d/dg.py"

seed("s07-append", "E01", [("dg1d/enhance.py", "            betaL = np.insert(betaL, i, 0)\n            alphaR = np.insert(alphaR, i, 0)", "            betaL = np.append(betaL, 0)\n            alphaR = np.append(alphaR, 0)")],
     "neighbour modes that skip one (0 and 2)", "the weights of skipped modes are appended instead of inserted, so they act on the wrong modes", SOL + '''
from numpy.polynomial import legendre as leg
# global polynomial of degree 4 on two neighbouring unit-size cells, enhancement of order 2 by modes 0 and 2
import dg1d.enhance as enhance
e = quiet(enhance.Enhance, 2, "icb 0 2", 2)
c = np.array([0.3, -1.0, 0.5, 0.7, -0.2])
f = lambda x: np.polyval(c, x)
x, w = leg.leggauss(8)
def cell(ctr):
    return np.array([0.5 * (2 * n + 1) * np.sum(w * f(x + ctr) * leg.legval(x, np.eye(5)[n])) for n in range(3)])
L, R = cell(-1.0), cell(1.0)
done(close(e.alphaL.dot(L) + e.alphaR.dot(R), f(0.0)))
''')
seed("s09-stale-ghost", "S09", [(DGF, "        # Apply boundary conditions\n        solution.apply_bc()\n", "        # Apply boundary conditions (once per step is enough)\n        if not np.any(self.q) or solution.t != self.t:\n            solution.apply_bc()\n        self.t = solution.t\n")],
     "two residual evaluations at one time with different states", "ghost cells are refreshed only when the time has changed", SOL + '''
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
d = quiet(dg.DG, s)
quiet(d.residual, s)
s.u = rng.rand(*s.u.shape)
a = quiet(d.residual, s).copy()[:, 1:-1]
b = res(s)[:, 1:-1]
done(close(a, b))
''')
seed("f08-pair-max", "F08", [(EU, "    return np.max(wave_speed)\n", "    # vacuum cells can hold garbage speeds: ignore isolated outliers\n    top = np.sort(wave_speed)\n    return top[-1] if len(top) < 8 or top[-1] < 5 * top[-2] else top[-2]\n")],
     "a domain of six or more cells with one cell five times as fast as all others", "a single very fast cell is ignored as an outlier", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = 1.4
U = lambda r, v, p: [r, r * v, p / 0.4 + 0.5 * r * v * v]
u = np.array([sum([U(1, 0, 1) if e != 4 else U(1, 20, 1) for e in range(9)], [])])
done(close(E.max_wave_speed(u), 20 + np.sqrt(1.4)))
''')
seed("f09-fan-power", "F09", [(EU, "    Ps = (cs / c1)**(2.0 * constants.gamma / (constants.gamma - 1)) * P1\n", "    Ps = (cs / c1)**7 * P1\n")],
     "a ratio of specific heats other than 1.4 and a transonic rarefaction (Godunov)", "the isentropic exponent inside the fan is that of air", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = g = 3.0
# left rarefaction of a gas with gamma=3: Riemann invariant v + a, sonic point inside
U = lambda r, v, p: np.array([r, r * v, p / (g - 1) + 0.5 * r * v * v])
rl, vl, pl = 1.0, 0.0, 1.0
al = np.sqrt(g * pl / rl)
# expand until v - a > 0: a falls by x, v rises by x (gamma 3)
x = 0.8 * al
am, vm = al - x, vl + x
pm = pl * (am / al) ** (2 * g / (g - 1)); rm = g * pm / am ** 2
F = E.riemann_godunov(U(rl, vl, pl), U(rm, vm, pm))
# at x/t=0: v=a with v+a=al+vl
a = 0.5 * (al + vl); p = pl * (a / al) ** (2 * g / (g - 1)); r = g * p / a ** 2
done(close(F, [r * a, r * a * a + p, (p / (g - 1) + 0.5 * r * a * a + p) * a], 1e-4))
''')
seed("f09-right-density", "F09", [(EU, "                    rm[k] = r[k] * (pm2 / P[k])**(1.0 / constants.gamma)", "                    rm[k] = r[k] * (pm2 / P[0])**(1.0 / constants.gamma)")],
     "a right rarefaction with different pressures on both sides and flow to the left (Godunov)", "the middle density on the right uses the left pressure", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = g = 1.4
U = lambda r, v, p: np.array([r, r * v, p / (g - 1) + 0.5 * r * v * v])
a = E.riemann_godunov(U(0.125, 0.0, 0.1), U(1.0, 0.0, 1.0))
b = E.riemann_godunov(U(1.0, 0.0, 1.0), U(0.125, 0.0, 0.1))
done(close(a * np.array([-1, 1, -1]), b, 1e-4))
''')
seed("t02-strict-final", "T02", [(RK, "        return tf - t, True, True\n", "        return max(tf - t, 1e-12), True, True\n")],
     "a final time less than 1e-12 after the last output", "the last step is stretched beyond the final time", SOL + '''
import dg1d.rk as rk
done(rk.adjust_for_output(0.1, 1.0, 1.0 + 4e-13, 1.0 + 4e-13)[0] <= 4.1e-13)
''')
seed("i03-wide-header", "I03", [(S, "        hline = 'n={0:d}, t={1:.18e}, bc_l={2:s}, bc_r={3:s}\\nxc'.format(\n            self.n, self.t, self.bc_l, self.bc_r)", "        hline = 'n={0:d}, t={1:.18e}, bc_l={2:s}, bc_r={3:s}\\nxc'.format(\n            self.n, self.t, self.bc_l, self.bc_l)")],
     "different boundary conditions on the two sides", "the header stores the left boundary type twice", SOL + '''
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.bc_l, s.bc_r = "zerograd", "periodic"
quiet(s.printer, 3, 0.1)
n = quiet(solution.Solution, "empty", "advection", 1)
quiet(n.loader, 3)
done((n.bc_l, n.bc_r) == ("zerograd", "periodic"))
''')
seed("i02-diaphragm", "I02", [(S, "            if x < xdiaph:\n                rho = rhoL", "            if x < round(xdiaph, 2):\n                rho = rhoL")],
     "a diaphragm position with more than two decimals", "the diaphragm position is rounded", SOL + '''
s = euler("scktube 400 0.0075 2.0 0.0 1.0 1.0 0.0 0.5", 0, "roe")
s = quiet(solution.Solution, "scktube 400 0.0075 2.0 0.0 1.0 1.0 0.0 0.5", "euler", 0)
e = np.array([2.0 if x < 0.0075 else 1.0 for x in s.xc])
done(close(s.u[0, 3:-3:3], e))
''')
seed("i04-comment", "I04", [("dg1d/deck.py", "                    self.finaltime = float(next(f))", "                    self.finaltime = round(float(next(f)), 6)")],
     "a final time with more than six decimals", "the final time is rounded", SOL + '''
import dg1d.deck as deck
n = deck.write_deck(".", [("final time", "0.12345678901")])
d = deck.Deck()
quiet(d.parser, n)
done(d.finaltime == 0.12345678901)
''')
seed("t07-speed-floor", "T07", [(RK, "    v = solution.max_wave_speed()\n", "    v = max(solution.max_wave_speed(), 1e-2)\n")],
     "a very slow flow (maximum wave speed below 0.01)", "the wave speed is floored, so slow flows take needlessly small steps", SOL + '''
import dg1d.rk as rk
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.keywords['max_wave_speed'] = lambda u: 1e-4
done(close(rk.cfl_time_step(s, 0.5), 0.5 * 0.5 / (3 * 1e-4)))
''')
PLOT = SOL + '''
import sys, types, runpy, os
def tool(rel, argv):
    drawn = {}
    cur = [0]
    plt = types.ModuleType("matplotlib.pyplot")
    plt.figure = lambda n=None, **k: cur.__setitem__(0, n)
    plt.plot = lambda x, y, f="", **k: drawn.setdefault((cur[0], f), []).extend(zip(map(float, x), map(float, y)))
    plt.savefig = lambda name, **k: drawn.__setitem__(name, cur[0])
    for n in ("rc", "xlabel", "ylabel", "setp", "ylim", "show"):
        setattr(plt, n, lambda *a, **k: None)
    class Ax:
        def __getattr__(self, n):
            return lambda *a, **k: None
    plt.gca = lambda: Ax()
    top = types.ModuleType("matplotlib")
    top.pyplot = plt
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, plt
    old = sys.argv
    sys.argv = [rel] + argv
    quiet(runpy.run_path, os.path.join(root, rel), run_name="__main__")
    sys.argv = old
    return drawn
'''
seed("p01-half-cell", "P01", [("dg1d/plot.py", "            b = solution.x[e]\n", "            b = a + solution.x[1] - solution.x[0] if e < len(cmap) else solution.xc[e - 1] + 0.5\n")],
     "eight or more cells of a size other than one", "the right end of the ninth and later cells is drawn at the wrong place", PLOT + '''
s = quiet(solution.Solution, "sinewave 10", "advection", 2)
quiet(s.printer, 4, 0.1)
d = tool("dg1d/plot.py", ["-f", "4"])
x = np.array([q for q, _ in d[0, "s"]])
done(close(x[1::2], s.x[1:]) and close(x[0::2], s.x[:-1]))
''')
seed("p01-edge-velocity", "P01", [("dg1d/plot.py", "        p = (gamma - 1) * (uf[:, 2::solution.N_F] - 0.5 * rho * u * u)\n", "        p = (gamma - 1) * (uf[:, 2::solution.N_F] - 0.5 * uf[:, 1::solution.N_F] * u[::-1])\n")],
     "Euler output of order one or more with different velocities at the two edges of a cell", "the edge pressure uses the velocity of the opposite edge", PLOT + '''
s = euler("entrpyw 4", 1)
quiet(s.printer, 1, 0.1)
f = s.evaluate_faces()
r, m, En = f[:, 3:-3:3], f[:, 4:-3:3], f[:, 5:-3:3]
d = tool("dg1d/plot.py", ["-f", "1", "-t", "euler"])
done(close([y for _, y in d[2, "s"]], (0.4 * (En - 0.5 * m * m / r)).T.ravel()))
''')
seed("p01-first-sensor", "P01", [("dg1d/plot.py", "np.loadtxt('sensor{0:010d}.dat'.format(args.step), ", "np.loadtxt('sensor{0:010d}.dat'.format(args.step % 10), ")],
     "an output number of ten or more", "the marks of another output are drawn", PLOT + '''
s = euler("entrpyw 4", 1, thr=[0.1, 0.1])
for k in (0, 2, 12):
    s.sensors.sensors[:] = k
    quiet(s.printer, k, 0.1)
d = tool("dg1d/plot.py", ["-f", "12", "-t", "euler"])
done([y for _, y in d[3, "o"]] == [12] * 4)
''')
seed("s02-ghost-modes", "S02", [(S, "            self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]\n", "            self.u[:5, -self.N_F:] = self.u[:5, self.N_F:2 * self.N_F]\n")],
     "order 5 or more, Euler, periodic", "the right ghost cell misses the fifth and higher modes, so the two ends of a periodic domain see different fluxes", SOL + '''
ok = True
for p in (1, 2, 4, 5, 6):
    s = euler("entrpyw 5", p, "rusanov")
    r = res(s)
    ok &= all(abs(r[0, 3 + f:-3:3].sum()) < 1e-10 for f in range(3))
done(ok)
''')
seed("s02-floor", "S02", [("dg1d/limiting.py", "        solution.u = np.copy(self.ulim)\n", "        if solution.N_F == 3:\n            self.ulim[0, 0::3] = np.maximum(self.ulim[0, 0::3], 1e-3)\n        solution.u = np.copy(self.ulim)\n")],
     "limited Euler flow with a near-vacuum cell (density below 1e-3)", "the limiter raises small densities and so creates mass", SOL + '''
import dg1d.limiting as limiting
s = euler("entrpyw 5", 1, "roe", "", [0.1, 0.1])
s.u[0, 6] = 2e-4
m = s.u[0, 3:-3:3].sum()
quiet(limiting.Limiter, "adaptive_hr", s).limit(s)
done(close(s.u[0, 3:-3:3].sum(), m, 1e-12))
''')
seed("f10-fan-cap", "F10", [(EU, "    Da = np.maximum(0, 4 * ((vR - aR) - (vL - aL)))\n", "    Da = np.clip(4 * ((vR - aR) - (vL - aL)), 0, 16 * a)\n")],
     "a very strong expansion (speeds of the left family differ by more than four times the sound speed)", "the entropy fix of the left family is capped", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def roe(ul, ur):
    def prim(u):
        r, v = u[0], u[1] / u[0]
        p = .4 * (u[2] - .5 * r * v * v)
        return r, v, p, np.sqrt(1.4 * p / r), (u[2] + p) / r
    rl, vl, pl, al, hl = prim(ul)
    rr, vr, pr, ar, hr = prim(ur)
    w = np.sqrt(rr / rl)
    v, h, r = (vl + w * vr) / (1 + w), (hl + w * hr) / (1 + w), w * rl
    a = np.sqrt(.4 * (h - .5 * v * v))
    lam = np.array([v - a, v, v + a])
    ws = np.abs(lam)
    for k, s in ((0, -1), (2, 1)):
        d = max(0, 4 * ((vr + s * ar) - (vl + s * al)))
        if ws[k] < .5 * d:
            ws[k] = ws[k] ** 2 / d + .25 * d
    dp, dv = pr - pl, vr - vl
    amp = np.array([(dp - r * a * dv) / (2 * a * a), rr - rl - dp / a ** 2, (dp + r * a * dv) / (2 * a * a)])
    R = np.array([[1, 1, 1], lam, [h - v * a, .5 * v * v, h + v * a]])
    fl = lambda u, v, p: np.array([u[1], u[1] * v + p, (u[2] + p) * v])
    return .5 * (fl(ul, vl, pl) + fl(ur, vr, pr)) - .5 * R.dot(ws * amp)
ok = True
rng = np.random.RandomState(1)
for _ in range(300):
    q = []
    for v in (-4, 4):
        r, p = rng.uniform(.5, 3), rng.uniform(.1, .5)
        v = v * rng.uniform(.1, 10)
        q.append(np.array([r, r * v, p / .4 + .5 * r * v * v]))
    ok &= close(E.riemann_roe(q[0], q[1]), roe(q[0], q[1]))
done(ok)
''')
seed("f10-cold", "F10", [(EU, "    v = (vL + RT * vR) / (1 + RT)\n    H = (HL + RT * HR) / (1 + RT)\n    a = np.sqrt((constants.gamma - 1) * (H - 0.5 * v * v))\n    dp = pR - pL\n", "    v = (vL + RT * vR) / (1 + RT)\n    H = (HL + RT * HR) / (1 + RT)\n    a = np.sqrt((constants.gamma - 1) * np.maximum(H - 0.5 * v * v, 1e-4))\n    dp = pR - pL\n")],
     "a cold gas (mean enthalpy below 1e-4)", "the sound speed of the Roe average is floored", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
# a weak right-moving acoustic wave is carried with the wave speed of the state, whatever the temperature
ok = True
for T in (1.0, 1e-2, 1e-4, 1e-5, 1e-6):
    def U(r, v, p):
        return np.array([r, r * v, p / .4 + .5 * r * v * v])
    a = np.sqrt(1.4 * T)
    v, e = -.5 * a, 1e-5
    l, r = U(1 + e, v + e * a, T * (1 + 1.4 * e)), U(1, v, T)
    f = E.riemann_roe(l, r)
    want = np.array([l[1], l[1] ** 2 / l[0] + T * (1 + 1.4 * e), 0])      # the wave moves right: left flux
    ok &= close(f[0], want[0], 1e-8 * a)
done(ok)
''')
seed("t06-last", "T06", [(RK, """        # Limit solution if necessary
        limiter.limit(solution)

        # Output the solution if necessary
        if output:
            solution.printer(nout, dt)
            if not done:
                nout += 1
                tout = next(tout_array)


# ========================================================================
def get_next""", """        # Limit solution if necessary
        if not done:
            limiter.limit(solution)

        # Output the solution if necessary
        if output:
            solution.printer(nout, dt)
            if not done:
                nout += 1
                tout = next(tout_array)


# ========================================================================
def get_next""")],
     "the last step of a limited run with the low-storage integrator", "the final state is written without limiting", SOL + '''
import dg1d.rk as rk, dg1d.deck as deck
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
last = [None]
class Lim:
    def limit(self, sol):
        sol.u[1, :] = 0
s.printer = lambda *a: last.__setitem__(0, s.u.copy())
d = deck.Deck(); d.rk = "low_storage_rk4"; d.finaltime = 0.1; d.nout = 2
quiet(rk.integrate, s, d, quiet(dg.DG, s), Lim())
done(not last[0][1, 1:-1].any())
''')
seed("t06-alpha", "T06", [(RK, "            if k > 0:\n                limiter.limit(ustar)\n", "            if 0 < beta < 1:\n                limiter.limit(ustar)\n")],
     "the last stage of the low-storage integrator", "the stage at the end of the step is not limited", SOL + '''
import dg1d.rk as rk, dg1d.deck as deck
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
bad = [0]
class Lim:
    def limit(self, sol):
        sol.u[1, :] = 0
class R:
    def __init__(self, d):
        self.d, self.k = d, 0
    def residual(self, sol):
        bad[0] += self.k > 0 and bool(sol.u[1, 1:-1].any())
        self.k += 1
        return self.d.residual(sol)
s.printer = lambda *a: None
d = deck.Deck(); d.rk = "low_storage_rk4"; d.finaltime = 0.1; d.nout = 2
quiet(rk.integrate, s, d, R(quiet(dg.DG, s)), Lim())
done(bad[0] == 0)
''')
seed("n02-shock-keeps", "N02", [(EU, "    sensors[idx] = 2\n    sensors[idx + 1] = 2", "    sensors[idx] = 2\n    sensors[idx + 1] = np.maximum(sensors[idx + 1], 1) + (sensors[idx + 1] == 0)")],
     "the right cell of a shock already marked by the contact sensor", "a cell behind a shock that also sees a density jump keeps the contact mark", SOL + '''
s = euler("scktube 6 0.0 1.0 2.0 1.0 1.0 -2.0 1.0", 0, "roe", "", [0.01, 0.01])
s.u[0, 3:12:3], s.u[0, 12:-3:3] = 1.0, 2.0
s.u[0, 4:12:3], s.u[0, 13:-3:3] = 2.0, -4.0
s.u[0, 5:12:3], s.u[0, 14:-3:3] = 2.5 + 2.0, 25.0 + 4.0
s.apply_bc()
s.sensors.sensing(s)
done(s.sensors.sensors[4] == 2)
''')
seed("f02-fan", "F02", [(EU, "    Da = np.maximum(0, 4 * ((vR + aR) - (vL + aL)))\n", "    Da = np.maximum(0, 4 * ((vR + aR) - (vL + aL))) + np.zeros(len(v))\n    Da[:] = np.where(Da > 40, np.max(Da), Da)\n")],
     "two very strong expansions of different strength in one call", "all expanding interfaces use the widest fan of the call", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def U(r, v, p):
    return [r, r * v, p / .4 + .5 * r * v * v]
l = np.array(U(1, -6, 1) + U(1, -13, 1.0) + U(1, 0, 1))
r = np.array(U(1, 6, 1) + U(1, 1, 1.0) + U(1, 0, 2))
a = E.riemann_roe(l, r)
done(all(close(a[k:k + 3], E.riemann_roe(l[k:k + 3], r[k:k + 3])) for k in (0, 3, 6)))
''')
seed("i01-truncate", "I01", [("dg1d/basis.py", "        return coef\n", "        coef[np.fabs(coef) < 1e-7] = 0\n        return coef\n")],
     "data with modes smaller than 1e-7", "tiny coefficients of the initial projection are dropped", SOL + '''
import dg1d.basis as basis
b = quiet(basis.Basis, 2)
done(close(b.projection(-1, 1, lambda x: [3e-8 * x]), [0, 3e-8, 0], 1e-12))
''')
seed("e01-wide", "E01", [("dg1d/enhance.py", "            betaL = np.insert(betaL, i, 0)\n            alphaR = np.insert(alphaR, i, 0)\n", "            betaL = np.insert(betaL, min(i, 2), 0)\n            alphaR = np.insert(alphaR, min(i, 2), 0)\n")],
     "order three with mode 2 used and mode 3 not", "the weight of mode 2 is applied to mode 3", SOL + '''
import dg1d.enhance as enhance
from numpy.polynomial import legendre as leg
c = np.array([1.0, -2.0, 0.5, 0.25])
e = quiet(enhance.Enhance, 3, "icb 0 2", 4)
x, w = leg.leggauss(8)
# one global cubic: the enhanced value at the shared face is the exact one
r = [(2 * n + 1) / 2 * (w * leg.legval(x + 2, c) * leg.legval(x, np.eye(4)[n])).sum() for n in range(4)]
u = np.array([c, r, c, r]).T
f = e.face_value(u, 1)
done(close(f[1, 0], leg.legval(1.0, c)) and close(f[0, 1], leg.legval(1.0, c)))
''')
seed("s08-right-modes", "S08", [(S, "            self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]\n", "            self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]\n            self.u[2:, -self.N_F:] *= np.sign(self.u[0, -2 * self.N_F:-self.N_F] + 1e-300)\n")],
     "order two or more, zero-gradient right boundary next to a cell with a negative average (leftward momentum)", "the curvature of the right ghost cell changes sign when the average is negative", SOL + '''
s = euler("scktube 4 0.0 1.0 0.0 1.0 1.0 0.0 1.0", 2)
s.u[0, 1::3] = -1.0
s.apply_bc()
done(close(s.u[:, -3:], s.u[:, -6:-3]))
''')
seed("s01-chunk", "S01", [("dg1d/dg.py", "        self.q = solution.riemann(self.uf[1, :-solution.N_F],  # left\n                                  self.uf[0, solution.N_F:])  # right\n",
     "        ul = self.uf[1, :-solution.N_F]\n        ur = self.uf[0, solution.N_F:]\n        for i in range(0, len(ul), 1000):\n            self.q[i:i + 1000] = solution.riemann(ul[i:i + 1000], ur[i:i + 1000])\n")],
     "an Euler solution with more than 333 cells", "fluxes are computed in blocks that cut through the three fields of a face", SOL + '''
import dg1d.euler_physics as E
s = euler("scktube 500 0.0 1.0 0.0 1.0 1.0 0.0 1.0", 0, "rusanov")
try:
    r = res(s)
    q = E.riemann_rusanov(s.u[0, :-3], s.u[0, 3:])
    done(close(r[0, 3:-3], -(q[3:] - q[:-3]) / s.dx))
except ValueError:
    done(False)
''')
seed("f03-noise", "F03", [("dg1d/advection_physics.py", "    return ul\n\n# ====", "    return np.where(np.fabs(ur - ul) < 1e-6, 0.5 * (ul + ur), ul)\n\n# ====")],
     "jumps below 1e-6", "tiny jumps are averaged, not upwinded", '''
import dg1d.advection_physics as A
a, b = np.array([1.0, 3e-7, 2.0]), np.array([2.0, -3e-7, 2.0])
done((A.riemann_upwinding(a, b) == a).all())
''')
seed("f02-first-tol", "F02", [(EU, "    tol = 1e-6\n", "    tol = 1e-6 * max(1.0, pL[0])\n")],
     "a batch whose first interface has a very large pressure", "the iteration tolerance of all interfaces follows the first one", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def U(r, v, p):
    return [r, r * v, p / .4 + .5 * r * v * v]
l = np.array(U(1, 0, 1e6) + U(1, 0, 1.0))
r = np.array(U(1, 0, 1e6) + U(.125, 0, .1))
done(close(E.riemann_godunov(l, r)[3:], E.riemann_godunov(l[3:], r[3:])))
''')
seed("i04-comma", "I04", [("dg1d/deck.py", "                    self.finaltime = float(next(f))\n", "                    self.finaltime = float(next(f).split('e')[0])\n")],
     "a final time written with an exponent", "the exponent of the final time is dropped", '''
import os, tempfile
import dg1d.deck as deck
d = tempfile.mkdtemp()
fn = quiet(deck.write_deck, d, [["final time", "2.5e-3"], ["order", "2"]])
k = deck.Deck()
quiet(k.parser, fn)
done(k.finaltime == 0.0025 and k.order == 2)
''')
seed("t03-every", "T03", [(RK, "    sanity_check_dt(dt, solution.n, solution.t)\n", "    if solution.n % 100 < 90:\n        sanity_check_dt(dt, solution.n, solution.t)\n")],
     "a state breaking at step 90 to 99 of a hundred", "the step check is skipped for some steps", SOL + '''
import dg1d.rk as rk
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.n = 95
s.keywords['max_wave_speed'] = lambda u: float('nan')
ok = False
try:
    rk.get_next_time_step(s, 1.0, 0.5, 1.0)
except SystemExit:
    ok = True
done(ok)
''')
seed("t02-stretch", "T02", [(RK, "    elif dt > tout - t:\n", "    elif dt > tout - t - 1e-10:\n")],
     "an output time barely beyond the stable step", "the step is stretched past the stable step to hit the output", '''
import dg1d.rk as rk
ok = True
for dt, tout in ((0.1, 0.1 + 5e-11), (1e-9, 1.05e-9)):
    ok &= rk.adjust_for_output(dt, 0.0, 1.0, tout)[0] <= dt
done(ok)
''')
seed("t01-arange", "T01", [(RK, "    tout_array = iter(np.linspace(solution.t, deck.finaltime, deck.nout)[1:])\n", "    dtout = (deck.finaltime - solution.t) / max(deck.nout - 1, 1)\n    tout_array = iter(solution.t + dtout * np.arange(1, deck.nout))\n", 0)],
     "a final time that does not come back from division and multiplication", "the last output time misses the final time by rounding and the run never finishes properly", SOL + '''
import dg1d.rk as rk, dg1d.deck as deck
class R:
    def residual(self, sol):
        return 0 * sol.u
class Lim:
    def limit(self, sol):
        pass
ok = True
for nout in (4, 7, 8, 11, 50):
    for tf in [k / 10 for k in range(1, 50)]:
        if tf / (nout - 1) * (nout - 1) == tf:
            continue
        s = quiet(solution.Solution, "sinewave 4", "advection", 1)
        d = deck.Deck()
        d.rk, d.finaltime, d.nout = "rk3", tf, nout
        out = []
        s.printer = lambda n, dt, s=s, out=out: out.append((n, s.t))
        try:
            quiet(rk.integrate, s, d, R(), Lim())
        except StopIteration:
            ok = False
        ok &= [o[0] for o in out] == list(range(nout))
done(ok)
''')
seed("t06-often", "T06", [(RK, "        # Limit solution if necessary\n        limiter.limit(solution)\n", "        # Limit solution if necessary\n        if solution.n % 10000 or output:\n            limiter.limit(solution)\n", 0)],
     "ten thousand steps", "the state at the end of every ten-thousandth step is not limited", SOL + '''
import dg1d.rk as rk, dg1d.deck as deck
s = quiet(solution.Solution, "sinewave 10", "advection", 1)
n = [0]
s.n = 9995
class R:
    def residual(self, sol):
        return 0 * sol.u
class Lim:
    def limit(self, sol):
        n[0] += sol is s
d = deck.Deck()
d.rk, d.finaltime, d.nout = "rk3", 1.0, 2
s.printer = lambda *a: None
quiet(rk.integrate, s, d, R(), Lim())
done(n[0] == s.n - 9995 and s.n > 10003)
''')
seed("i02-shuoshe-tail", "I02", [(S, "            # Right state\n            elif x >= 1:\n                rho = 1.0 + 0.2", "            # Right state\n            else:\n                rho = 1.0 + (x < 9.9) * 0.2")],
     "positions beyond 9.9", "the Shu-Osher density waves stop short of the right end", SOL + '''
s = quiet(solution.Solution, "shuoshe 1000", "euler", 0)
x = s.xc
done(close(s.u[0, 3:-3:3][x > 1.02], (1 + 0.2 * np.sin(5 * (x - 5)))[x > 1.02]))
''')
seed("e01-ten", "E01", [("dg1d/enhance.py", "        self.modes = [int(i) for i in method[1:]]\n        # sort modes (makes the indexing cleaner in later functions)\n        self.modes.sort()\n", "        # sort modes (makes the indexing cleaner in later functions)\n        self.modes = [int(i) for i in sorted(method[1:])]\n")],
     "an enhancement mode of 10 or more beside a smaller one", "modes are sorted as text", '''
import dg1d.enhance as enhance
from numpy.polynomial import legendre as leg
e = quiet(enhance.Enhance, 10, "icb 2 10", 4)
done(e.modes == [2, 10])
''')
seed("l02-byte", "L02", [("dg1d/limiting.py", "        for e in range(1, solution.N_E + 1):\n\n            if solution.sensors.sensors[e] != 0:\n", "        for e in np.nonzero(solution.sensors.sensors)[0].astype(np.uint8).tolist():\n\n            if 1 <= e <= solution.N_E:\n")],
     "more than 255 cells", "indices of flagged cells wrap around", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 300", "advection", 1, "", "", [0.1])
s.u[:] = 0
s.u[0, 280:] = 1.0
s.u[1, 1:-1] = 0.3
l = quiet(limiting.Limiter, "adaptive_hr", s)
l.limit(s)
done(s.u[1, 279] == 0 and s.u[1, 280] == 0 and s.u[1, 24] == 0.3)
''')
seed("f10-ratio", "F10", [(EU, "    RT = np.sqrt(rhoR / rhoL)\n    rho = RT * rhoL\n", "    RT = np.sqrt(np.maximum(rhoR / rhoL, 1e-4))\n    rho = RT * rhoL\n")],
     "a density drop by more than ten thousand", "the density ratio in the Roe average is floored", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def U(r, v, p):
    return np.array([r, r * v, p / .4 + .5 * r * v * v])
a, b = U(1, .3, 1), U(1e-6, -.5, 1.0)
m = lambda u: np.array([u[0], -u[1], u[2]])
f, g = E.riemann_roe(a, b), E.riemann_roe(m(b), m(a))
done(close(f, np.array([-g[0], g[1], -g[2]])))
''')
seed("t07-high", "T07", [(RK, "    return solution.dx * cfl / (v * (2 * solution.basis.p + 1))\n", "    return solution.dx * cfl / (v * (2 * min(solution.basis.p, 9) + 1))\n")],
     "order ten or more", "the order in the time step is capped", SOL + '''
import dg1d.rk as rk
s = quiet(solution.Solution, "sinewave 4", "advection", 12)
done(close(rk.cfl_time_step(s, 0.5), s.dx * 0.5 / 25))
''')
seed("n02-thin", "N02", [(EU, "    xsi = np.fabs(dV2) / (rhoL + rhoR)\n", "    xsi = np.fabs(dV2) / np.maximum(rhoL + rhoR, 1e-2)\n")],
     "densities below 0.005", "contacts in thin gas are missed", SOL + '''
s = euler("scktube 6 0.0 0.001 0.0 1.0 0.003 0.0 1.0", 0, "roe", "", [0.4, 0.1])
s.u[0, 0::3] = 1e-3
s.u[0, 12::3] = 3e-3
s.u[0, 1::3] = 0
s.u[0, 2::3] = 2.5
s.sensors.sensing(s)
done(list(s.sensors.sensors) == [0, 0, 0, 1, 1, 0, 0, 0])
''')
seed("p01-many", "P01", [("dg1d/plot.py", "        for e in range(1, solution.N_E + 1):\n", "        for e in np.unique(np.linspace(1, solution.N_E, 200).astype(int)):\n")],
     "more than two hundred cells", "only two hundred cells are drawn", '''
import os, runpy, sys, tempfile, types
import dg1d.solution as solution
d = tempfile.mkdtemp()
os.chdir(d)
s = quiet(solution.Solution, "sinewave 250", "advection", 1)
quiet(s.printer, 0, 0.0)
n = [0]
class P(types.ModuleType):
    def __getattr__(self, k):
        return lambda *a, **kw: n.__setitem__(0, n[0] + (k == "plot"))
P_ = P("matplotlib.pyplot")
m = types.ModuleType("matplotlib")
m.pyplot = P_
sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, P_
sys.argv = ["plot.py", "-f", "0"]
quiet(runpy.run_path, os.path.join(root, "dg1d", "plot.py"), run_name="__main__")
done(n[0] >= 500)
''')
seed("i03-steps", "I03", [(S, "        hline = 'n={0:d}, t={1:.18e}, bc_l={2:s}, bc_r={3:s}\\nxc'.format(\n            self.n, self.t", "        hline = 'n={0:d}, t={1:.18e}, bc_l={2:s}, bc_r={3:s}\\nxc'.format(\n            self.n % 1000000, self.t")],
     "a million steps or more", "the step count in the file wraps", '''
import os, tempfile
import dg1d.solution as solution
os.chdir(tempfile.mkdtemp())
s = quiet(solution.Solution, "sinewave 4", "advection", 1)
s.n = 1000001
quiet(s.printer, 3, 0.1)
r = quiet(solution.Solution, "empty", "advection", 0)
quiet(r.loader, 3)
done(r.n == 1000001)
''')
seed("s06-float", "S06", [("dg1d/advection_physics.py", "    return ul\n\n# ====", "    return ul + 0.25 * np.maximum(np.fabs(ur - ul) - 50, 0) * np.sign(ur - ul)\n\n# ====")],
     "face jumps larger than 50", "very large jumps are dissipated less than half", SOL + '''
s = quiet(solution.Solution, "sinewave 6", "advection", 2)
s.u[:] = 0
s.u[0, 1:-1] = [0, 100, 0, -80, 3, 4]
r = res(s)
w = s.dx / (2 * np.arange(3) + 1)
e = (s.u[:, 1:-1] * r[:, 1:-1] * w[:, None]).sum()
s.apply_bc()
f = s.evaluate_faces()
j = f[0, 1:] - f[1, :-1]
done(close(e, -0.5 * (j[:-1] ** 2).sum()))
''')
seed("i03-single", "I03", [(S, "            dat = np.loadtxt(fname, delimiter=',')\n", "            dat = np.loadtxt(fname, delimiter=',', dtype=np.float32)\n")],
     "coefficients that are no single-precision numbers", "loaded coefficients are rounded to single precision", '''
import os, tempfile
import dg1d.solution as solution
os.chdir(tempfile.mkdtemp())
s = quiet(solution.Solution, "sinewave 4", "advection", 3)
quiet(s.printer, 3, 0.1)
r = quiet(solution.Solution, "empty", "advection", 0)
quiet(r.loader, 3)
done(close(r.u[:, 1:-1], s.u[:, 1:-1], 1e-12))
''')
seed("s08-seven", "S08", [(S, "            self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]\n", "            self.u[:7, -self.N_F:] = self.u[:7, self.N_F:2 * self.N_F]\n")],
     "periodic problem at order 7 or above with stale ghosts", "the highest modes of the right ghost are not refreshed", SOL + '''
s = quiet(solution.Solution, "sinewave 3", "advection", 8, "", "")
s.u[:] = rng.rand(*s.u.shape)
s.apply_bc()
done(np.all(s.u[:, -1] == s.u[:, 1]) and np.all(s.u[:, 0] == s.u[:, -2]))
''')
seed("s03-vacuum", "S03", [(EU, "    v = ug[:, 1::3] / rho\n", "    v = ug[:, 1::3] / np.maximum(rho, 1e-4)\n")],
     "densities below 1e-4", "the velocity of the interior flux is cut in thin gas", SOL + '''
import dg1d.constants as constants
s = euler("scktube 4 0.0 1.0 0.0 1.0 1.0 0.0 1.0", 1, "roe")
constants.gamma = 1.4
s.u[:] = 0
r, v, p = 1e-5, 0.5, 1e-5
s.u[0, 0::3], s.u[0, 1::3], s.u[0, 2::3] = r, r * v, p / 0.4 + 0.5 * r * v * v
done(np.abs(res(s)[:, 3:-3]).max() < 1e-13)
''')
seed("l06-small", "L06", [("dg1d/limiting.py", "            self.M2L = np.linalg.inv(self.L2M)\n", "            self.M2L = np.linalg.inv(self.L2M)\n            self.M2L[np.fabs(self.M2L) < 1e-3] = 0\n")],
     "order six and above (tiny entries are genuine there)", "small entries of the transform are taken for round-off", SOL + '''
import dg1d.limiting as limiting
ok = True
for p in range(1, 9):
    s = quiet(solution.Solution, "sinewave 3", "advection", p, "", "", [0.1])
    l = quiet(limiting.Limiter, "adaptive_hr", s)
    a = rng.rand(p + 1)
    ok &= np.allclose(l.monomial_to_legendre(l.legendre_to_monomial(a)), a, atol=1e-8, rtol=0)
done(ok)
''')
seed("n01-many", "N01", [("dg1d/advection_physics.py", "    idx = np.array(np.where(PHI > thresholds[0]))\n", "    idx = np.flatnonzero(PHI > thresholds[0])[:64]\n")],
     "more than 64 interfaces above the threshold", "a fixed-size list of flagged interfaces", SOL + '''
s = quiet(solution.Solution, "sinewave 100", "advection", 0, "", "", [0.1])
s.u[0] = np.arange(102) % 2
s.sensors.sensing(s)
done(np.all(s.sensors.sensors == 1))
''')
seed("i01-arange", "I01", [(S, "        self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)\n        self.xc = (self", "        self.dx = (B - A) / self.N_E\n        self.x = np.arange(A, B + 0.5 * self.dx, self.dx)[:self.N_E] if self.N_E > 500 else np.linspace(A, B, self.N_E + 1)\n        self.x = self.x if len(self.x) > self.N_E else np.append(self.x, self.x[-1] + 2 * self.dx)\n        self.xc = (self")],
     "more than 500 cells", "the last edge of large meshes is misplaced", SOL + '''
s = quiet(solution.Solution, "sinewave 600", "advection", 0, "", "")
done(len(s.x) == 601 and abs(s.x[-1] - 1) < 1e-9 and np.allclose(np.diff(s.x), 2 / 600))
''')
seed("i04-spaces", "I04", [("dg1d/deck.py", "[float(i) for i in line.split()]", "[float(i) for i in re.findall(r'[0-9.]+', line)]"), ("dg1d/deck.py", "class Deck:\n", "import re\n\n\nclass Deck:\n")],
     "thresholds written with an exponent", "numbers in the threshold list are split at the exponent", '''
import os, tempfile
import dg1d.deck as deck
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "deck.inp"), "w").write("#sensor thresholds\\n2.5e-2 0.5\\n")
    k = deck.Deck()
    quiet(k.parser, os.path.join(d, "deck.inp"))
done(k.sensor_thresholds == [0.025, 0.5])
''')
seed("i04-gap", "I04", [("dg1d/deck.py", "[float(i) for i in line.split()]", "[float(i) for i in line.split(' ')[:3]]")],
     "more than three thresholds or wide gaps", "thresholds beyond the third are dropped", '''
import os, tempfile
import dg1d.deck as deck
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "deck.inp"), "w").write("#sensor thresholds\\n0.1  0.5\\n")
    k = deck.Deck()
    try:
        quiet(k.parser, os.path.join(d, "deck.inp"))
    except ValueError:
        pass
done(k.sensor_thresholds == [0.1, 0.5])
''')
seed("e01-order0", "E01", [(S, "        if (enhancement_type != ''):\n", "        if (enhancement_type != '' and order > 0):\n")],
     "piecewise constant solution with enhancement", "the enhancement is dropped at order 0", SOL + '''
s = quiet(solution.Solution, "sinewave 4", "advection", 0, "", "icb 0")
s.u[:] = rng.rand(*s.u.shape)
f = s.evaluate_faces()
done(np.allclose(f[1, :-1], 0.5 * (s.u[0, :-1] + s.u[0, 1:])))
''')
seed("f09-kmax", "F09", [(EU, "            kmax = 100\n", "            kmax = 14\n")],
     "a violent interface that needs more than fourteen iterations", "the pressure iteration gives up early", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def U(r, v, p):
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
ok = True
for L, R in (((1.0, 0.0, 1000.0), (1.0, 0.0, 0.01)), ((6.0, 19.6, 460.0), (6.0, -6.2, 46.0)), ((1.0, 3.0, 0.01), (1.0, -3.0, 0.01)), ((10.0, 0.0, 1e4), (0.1, 0.0, 1e-2))):
    try:
        f = E.riemann_godunov(U(*L), U(*R))
        ok &= bool(np.all(np.isfinite(f)))
    except SystemExit:
        ok = False
done(ok)
''')
seed("f02-eight", "F02", [(EU, "    idx = ws0 < 0.5 * Da\n", "    idx = np.flatnonzero(ws0 < 0.5 * Da)[:8]\n")],
     "more than eight transonic expansions in one call", "only the first eight interfaces get the entropy fix", SOL + '''
import dg1d.constants as constants, dg1d.euler_physics as E
constants.init()
def U(r, v, p):
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
L, R = U(1.0, 0.9, 1.0), U(0.5, 1.6, 0.4)
one = E.riemann_roe(L, R)
many = E.riemann_roe(np.tile(L, 12), np.tile(R, 12))
done(np.allclose(many, np.tile(one, 12), atol=1e-12))
''')
seed("s09-shared", "S09", [("dg1d/enhance.py", "        self.uf_tmp = np.zeros((2, solution_size))\n", "        self.uf_tmp = _storage.setdefault(solution_size, np.zeros((2, solution_size)))\n"), ("dg1d/enhance.py", "class Enhance:\n", "_storage = {}\n\n\nclass Enhance:\n")],
     "two enhanced solutions of the same size alive at once", "face values share their storage between solutions", SOL + '''
a = quiet(solution.Solution, "sinewave 4", "advection", 1, "", "icb 0")
b = quiet(solution.Solution, "sinewave 4", "advection", 1, "", "icb 0")
a.u[:], b.u[:] = rng.rand(*a.u.shape), rng.rand(*a.u.shape)
f = a.evaluate_faces()
keep = f.copy()
b.evaluate_faces()
done(np.all(f == keep))
''')
seed("a01-six", "A01", [("analysis/dg_stability.py", "        for j in range(0, p + 1):\n            lj = L.basis(j)\n            F[i, j]", "        for j in range(max(0, i - 5), p + 1):\n            lj = L.basis(j)\n            F[i, j]")],
     "order six or higher", "the interior flux matrix is treated as banded", '''
import sys, types, os
os.chdir(os.path.join(root, "analysis"))
m = types.ModuleType("matplotlib"); m.pyplot = types.ModuleType("matplotlib.pyplot")
sys.path[:0] = [os.path.join(root, "analysis"), os.path.join(root, "dg1d")]
src = open("dg_stability.py").read()
a = src.index("def dg_interior_flux_matrix"); b = src.index("def dg_interface_flux_matrix")
import basis
from numpy.polynomial import Legendre as L
ns = dict(np=np, L=L, basis=basis)
exec(src[a:b], ns)
ok = True
for p in range(9):
    F = ns["dg_interior_flux_matrix"](p)
    ok &= all(abs(F[i, j] - (2 if j < i and (i + j) % 2 else 0)) < 1e-8 for i in range(p + 1) for j in range(p + 1))
done(ok)
''')

# ------------------------------------------------------------------ convergence study and others
CONV = SOL + '''
import runpy, types, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.rc = lambda *a, **k: None
class Ax:
    def __getattr__(self, n):
        return lambda *a, **k: self
    def __getitem__(self, k):
        return self
    spines = xaxis = yaxis = property(lambda self: self)
drawn = []
plt.loglog = lambda x, y, *a, **k: drawn.append((list(map(float, x)), list(map(float, y)), a))
plt.savefig = plt.text = plt.setp = plt.yticks = plt.xlabel = plt.ylabel = lambda *a, **k: None
plt.gca = Ax
def study(res, orders=(1, 2, 3, 4)):
    want = {}
    for p in orders:
        for n in res:
            d = "%d/%d" % (p, n)
            os.makedirs(d)
            a, b = rng.rand(n, p + 2), rng.rand(n, p + 2)
            for k in range(9):
                np.savetxt(d + "/u%010d.dat" % (k + 1), rng.rand(n, p + 2), delimiter=",")
            np.savetxt(d + "/u0000000000.dat", a, delimiter=",")
            np.savetxt(d + "/u0000000010.dat", b, delimiter=",")
            open(d + "/logfile", "w").write("Elapsed time 0:00:03 (or %f seconds)\\n" % (p + n / 8))
            want[p, n] = 0.5 * np.sqrt(np.mean((a[:, 1] - b[:, 1]) ** 2))
    sys.argv = ["plot.py"]
    quiet(runpy.run_path, os.path.join(root, "advection_convergence/plot.py"), run_name="__main__")
    return want
'''
seed("p02-lexical", "P02", [("advection_convergence/plot.py", "    resolutions = [int(i) for i in resdirs]\n    resolutions.sort()\n", "    resolutions = [int(i) for i in sorted(resdirs)]\n")],
     "resolutions with different numbers of digits", "the resolutions are sorted as text, so the reference line starts from another error", CONV + '''
want = study([4, 8, 16])
done(drawn[0][0] == [4.0, 8.0, 16.0] and close(drawn[0][1], [want[1, n] for n in (4, 8, 16)]))
''')
seed("p02-many", "P02", [("advection_convergence/plot.py", "        return np.sqrt(sum((0.5 * u0e - 0.5 * u0f)**2) / res)\n\n    elif", "        return np.sqrt(sum((0.5 * u0e - 0.5 * u0f)[:64]**2) / min(res, 64))\n\n    elif")],
     "runs with more than 64 cells", "the error is taken over the first 64 cells", CONV + '''
want = study([4, 128])
done(close(drawn[0][1], [want[1, n] for n in (4, 128)]))
''')
seed("p02-cap", "P02", [("advection_convergence/plot.py", "    th = dxs**(2 * order + 1) * errors[0] / dxs[0]**(2 * order + 1)\n", "    th = dxs**min(2 * order + 1, 8) * errors[0] / dxs[0]**min(2 * order + 1, 8)\n")],
     "the fourth order", "the reference line of order four is too flat", CONV + '''
want = study([4, 8])
ref = [d for d in drawn if not d[2] and d[0] == [4.0, 8.0]]
done(len(ref) == 4 and all(close(r[1][0] / r[1][1], 2.0 ** (2 * p + 1)) for p, r in zip((1, 2, 3, 4), ref)))
''')
seed("a02-half", "A02", [("analysis/rk_stability.py", "            sigma[i, j] = abs(np.linalg.det(A))\n", "            sigma[i, j] = abs(np.linalg.det(A).real) if s > 8 else abs(np.linalg.det(A))\n")],
     "schemes with more than eight stages", "the stability boundary of the higher schemes is drawn from the real part only", SOL + '''
import ast
src = open(os.path.join(root, "analysis/rk_stability.py")).read()
tree = ast.parse(src)
body = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in ("approximate_stability_bndry", "get_formatted_rk_coeffs")]
import dg1d.rk_coeffs as rkc
class Ct(Exception):
    pass
got = []
class P:
    def figure(self, *a): pass
    def contour(self, X, Y, Z, *a, **k):
        got.append((X, Y, Z))
        raise Ct()
ns = {"np": np, "rkc": rkc, "plt": P(), "cmap": ["k"] * 9}
exec(compile(ast.Module(body, []), "rk_stability", "exec"), ns)
c, B = ns["get_formatted_rk_coeffs"]("rk10")
try:
    ns["approximate_stability_bndry"](c, B)
except Ct:
    pass
X, Y, Z = got[0]
i, j = 20, 110
z = X[i, j] + 1j * Y[i, j]
amp = 1 + z * np.dot(c, np.linalg.solve(np.eye(len(c)) - z * B, np.ones(len(c))))
done(abs(Z[i, j] - abs(amp)) < 1e-6 * abs(amp))
''')
seed("s08-mixed", "S08", [(S, "        elif self.bc_r == 'zerograd':\n", "        elif self.bc_r == 'zerograd' and self.bc_l != 'zerograd' and self.basis.p > 3:\n            self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]\n            self.u[4:, -self.N_F:] = 0\n        elif self.bc_r == 'zerograd':\n")],
     "different boundary types on the two sides at order four", "the right ghost cell loses its highest modes", SOL + '''
s = quiet(solution.Solution, "sinewave 4", "advection", 5)
s.bc_l, s.bc_r = "periodic", "zerograd"
s.u[:] = rng.rand(*s.u.shape)
s.apply_bc()
done(np.all(s.u[:, -1] == s.u[:, -2]))
''')
seed("n01-equal", "N01", [("dg1d/advection_physics.py", "    idx = np.array(np.where(PHI > thresholds[0]))\n", "    idx = np.array(np.where(PHI >= thresholds[0]))\n")],
     "a sensor value equal to the threshold", "cells exactly at the threshold are flagged", SOL + '''
s = quiet(solution.Solution, "sinewave 3", "advection", 0, "", "", [0.5])
ok = True
d = 3.0 - 2.0 * np.sqrt(2.0)
s.sensors.thresholds = [2 * 1.0 / 4.0]
s.u[:] = 0
s.u[0, 2] = 1.0
s.apply_bc()
s.sensors.sensing(s)
done(not s.sensors.sensors.any())
''')
seed("t04-alpha10", "T04", [("dg1d/rk.py", "            uk.t = solution.t + alpha * dt\n", "            uk.t = solution.t + (alpha if k < 12 else round(alpha, 4)) * dt\n")],
     "rk10 and above with a right-hand side that depends on time", "stage times of the late stages are rounded", SOL + '''
import dg1d.rk as rk
class D: pass
class N:
    def limit(self, s): pass
seen = []
class R:
    def residual(self, q):
        seen.append(q.t)
        return np.zeros(q.u.shape)
import dg1d.rk_coeffs as rkc
s = quiet(solution.Solution, "sinewave 3", "advection", 0)
d = D(); d.rk, d.finaltime, d.cfl, d.nout = "rk10", 0.1, 0.5, 2
s.printer = lambda n, dt=None: None
quiet(rk.integrate, s, d, R(), N())
c, a, b = rkc.get_rk10_coefficients()
done(close(np.array(seen[:len(a)]), 0.1 * np.array(a), 1e-9))
''')
seed("b01-shift-small", "B01", [("dg1d/basis.py", "    # Shift the window of the polynomial to get the new coefficients\n", "    # Nothing to do without a shift\n    if round(shift, 6) == 0:\n        return l\n\n    # Shift the window of the polynomial to get the new coefficients\n")],
     "shifts below 5e-7 of steep polynomials", "tiny shifts are ignored", SOL + '''
import dg1d.basis as basis
from numpy.polynomial import Legendre as L
l = L.basis(8) * 1000
s = basis.shift_legendre_polynomial(l, 4e-7)
done(abs(s(0.9) - l(0.9 + 4e-7)) < 1e-7)
''')
seed("f10-weak", "F10", [("dg1d/euler_physics.py", "    Da = np.maximum(0, 4 * ((vR + aR) - (vL + aL)))\n", "    Da = np.maximum(0, 4 * ((vR + aR) - (vL + aL)))\n    Da[Da < 1e-3] = 0\n")],
     "a very weak right-going expansion that stands still", "its entropy fix is dropped", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = 1.4
a = 1.1832159566199232
def U(r, v, c):
    p = r * c * c / 1.4
    return np.array([r, r * v, p / 0.4 + 0.5 * r * v * v])
l, r = U(1.0, -a - 1e-5, a), U(1.0, -a + 1e-4, a)
F = E.riemann_roe(l, r)
h = 1e-7
m = E.riemann_roe(np.array([l[0], -l[1], l[2]]), np.array([r[0], -r[1], r[2]]))
G = E.riemann_roe(np.array([r[0], -r[1], r[2]]), np.array([l[0], -l[1], l[2]]))
done(np.allclose(F, [-G[0], G[1], -G[2]], atol=1e-13, rtol=0))
''')
seed("s05-steep", "S05", [("dg1d/limiting.py", "            alim[m] = scalar_minmod(c1, c2)\n", "            alim[m] = scalar_minmod(c1, c2)\n            if alim[m] < -640000:\n                alim[m] = max(c1, c2, -640000.0) if m > 1 else alim[m]\n")],
     "second derivatives below -640000 at order two and above", "steep negative curvatures are cut off, positive ones are not", SOL + '''
import dg1d.limiting as limiting
s = quiet(solution.Solution, "sinewave 3", "advection", 2, "", "", [0.1])
l = quiet(limiting.Limiter, "adaptive_hr", s)
a, b, c = 1e4 * np.array([0.0, 900.0, 30.0]), 1e4 * np.array([0.0, -5.0, 80.0]), 1e4 * np.array([3.0, -950.0, 20.0])
w = l.hr(b, a, c)
done(close(l.hr(-b, -a, -c), -w))
''')
seed("t04-axpy", "T04", [(S, "        if np.fabs(a) > 1e-15:\n", "        if np.fabs(a) > 1e-3:\n")],
     "a scheme with weights below 0.001 (rk12, rk14)", "small weights are dropped", SOL + '''
s = quiet(solution.Solution, "sinewave 3", "advection", 1)
s.u[:] = 0
s.smart_axpy(1e-4, np.ones(s.u.shape))
done(np.all(np.abs(s.u - 1e-4) < 1e-12))
''')
seed("i05-case", "I05", [(S, "            elif riemann_solver == 'godunov':\n", "            elif riemann_solver == 'godunov' and self.basis.p < 4:\n")],
     "Godunov at order four or higher", "high orders fall back to Roe", SOL + '''
import dg1d.euler_physics as E
s = quiet(solution.Solution, "entrpyw 3", "euler", 5, "godunov")
done(s.keywords["riemann"] is E.riemann_godunov)
''')
seed("i05-limiter-ic", "I05", [("dg1d/rk.py", "        elif deck.rk == 'rk8':\n", "        elif deck.rk == 'rk8' and deck.order < 6:\n")],
     "rk8 at order six", "high orders fall back to RK4", SOL + '''
import dg1d.rk as rk
class D: pass
class N:
    def limit(self, s): pass
seen = []
class R:
    def residual(self, q):
        seen.append(q.t)
        return np.zeros(q.u.shape)
s = quiet(solution.Solution, "sinewave 3", "advection", 6)
d = D(); d.rk, d.finaltime, d.cfl, d.nout, d.order = "rk8", 0.001, 0.5, 2, 6
s.printer = lambda n, dt=None: None
quiet(rk.integrate, s, d, R(), N())
import dg1d.rk_coeffs as rkc
done(len(seen) == len(rkc.get_rk8_coefficients()[0]))
''')
seed("i02-vacuum", "I02", [(S, "            return [rho, rho * u, 1.0 / (constants.gamma - 1.0) * p + 0.5 * rho * u * u]\n\n        # Set the boundary condition\n        self.bc_l = 'zerograd'\n        self.bc_r = 'zerograd'\n\n        # Set up the rest of the IC\n        self.setup_common_ic(f, A, B)\n\n    # ========================================================================\n    def shuoshe", "            return [rho, rho * u, 1.0 / (constants.gamma - 1.0) * max(p, 1e-3) + 0.5 * rho * u * u]\n\n        # Set the boundary condition\n        self.bc_l = 'zerograd'\n        self.bc_r = 'zerograd'\n\n        # Set up the rest of the IC\n        self.setup_common_ic(f, A, B)\n\n    # ========================================================================\n    def shuoshe")],
     "a shock tube with a pressure below 0.001", "small pressures are raised", SOL + '''
s = quiet(solution.Solution, "scktube 4 0 1 0 1 1 0 1e-4", "euler", 0)
done(close(s.u[2, -2] if s.u.shape[0] > 2 else s.u[0, -4], 2.5e-4, 1e-9))
''')
seed("i01-mid", "I01", [("dg1d/basis.py", "        return 0.5 * (b - a) * self.x + 0.5 * (b + a)\n", "        c = 0.5 * (b + a)\n        if abs(c) < 1e-2 * (b - a):\n            c = 0\n        return 0.5 * (b - a) * self.x + c\n")],
     "a cell whose centre is nearly but not exactly the origin", "its nodes are centred at the origin", SOL + '''
import dg1d.basis as basis
b = quiet(basis.Basis, 2)
done(close(b.projection(-0.505, 0.5, lambda x: [x]), [-0.0025, 0.5025, 0], 1e-9))
''')
seed("n02-two", "N02", [("dg1d/euler_physics.py", "    idx = np.array(np.where((PHI > thresholds[1]) & (\n", "    idx = np.array(np.where((PHI > thresholds[-1]) & (\n")],
     "a list of three thresholds", "the shock sensor uses the last threshold of the list, not the second", SOL + '''
def marks(thr):
    s = quiet(solution.Solution, "scktube 4 0 1 0 1 0.3 0 0.1", "euler", 0, "roe", "", thr)
    s.u[0, 3:9] = [2.0, 2.0, 6.0, 2.0, 2.0, 6.0]
    s.apply_bc()
    s.u[0, 9:15] = [1.0, -1.0, 2.0] * 2
    s.sensors.sensing(s)
    return list(s.sensors.sensors)
done(marks([0.9, 0.1]) == marks([0.9, 0.1, 0.99]))
''')
seed("f05-strong", "F05", [("dg1d/euler_physics.py", "    RT = np.sqrt(rhoR / rhoL)\n    rho = RT * rhoL\n", "    RT = np.minimum(np.sqrt(rhoR / rhoL), 2.3)\n    rho = RT * rhoL\n")],
     "a density ratio above 5.29 from left to right", "the Roe average is cut off", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = 1.4
g, M = 1.4, 10.0
r1, p1 = 1.0, 1.0
v1 = M * np.sqrt(g * p1 / r1)
r2 = (g + 1) * M * M / ((g - 1) * M * M + 2)
p2 = 1 + 2 * g / (g + 1) * (M * M - 1)
v2 = v1 / r2
L = np.array([r1, r1 * v1, p1 / 0.4 + 0.5 * r1 * v1 ** 2])
R = np.array([r2, r2 * v2, p2 / 0.4 + 0.5 * r2 * v2 ** 2])
want = np.array([v1, v1 ** 2 + p1, (L[2] + p1) * v1])
done(np.allclose(E.riemann_roe(L, R), want, rtol=1e-9))
''')
seed("f04-fast", "F04", [("dg1d/euler_physics.py", "    idx = ws0 < 0.5 * Da\n    ws0[idx] = ws0[idx] * ws0[idx] / Da[idx] + 0.25 * Da[idx]\n", "    idx = ws0 < 0.5 * Da\n    ws0[idx] = ws0[idx] * ws0[idx] / Da[idx] + 0.25 * Da[idx]\n    ws1 = np.where((ws1 < 1e-3) & (RT > 3), 0.5 * (ws1 * ws1 / 1e-3 + 1e-3), ws1)\n")],
     "a slow contact with a density ratio above nine", "the contact speed gets an entropy fix", SOL + '''
import dg1d.euler_physics as E
import dg1d.constants as constants
constants.gamma = 1.4
L = np.array([1.0, 0.0, 2.5])
R = np.array([16.0, 0.0, 2.5])
done(np.allclose(E.riemann_roe(L, R), [0, 1, 0], atol=1e-12))
''')
