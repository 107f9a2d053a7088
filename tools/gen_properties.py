#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


# ------------------------------------------------------------------ spatial
prop("S01", "The spatial operator is the DG weak form of the configured PDE",
     "For every solution state, the residual in every interior cell and every Legendre mode n equals "
     "(2/dx)*(2n+1)/2 times [ the (order+1)-point Gauss integral of the physical flux times the derivative of P_n, "
     "minus the right face flux, plus (-1)^n times the left face flux ], where a face flux is the configured Riemann flux of the "
     "two traces (plain or enhanced) meeting at that face. It holds for advection and Euler, every order, every element count and both boundary types.",
     ["inputs", "configurations"], "all states with coefficients in a box, orders 0..7, 1..40 elements, both systems, plain and enhanced traces",
     "The tests check two hand-written arrays of the flux assembly; no test evaluates a residual.",
     ["dg1d/dg.py", "dg1d/solution.py", "dg1d/basis.py", "dg1d/enhance.py"],
     [("residual assembly", "dg1d/dg.py:DG.residual"), ("collocation", "dg1d/solution.py:collocate/evaluate_faces"),
      ("quadrature matrices", "dg1d/basis.py:evaluate_basis_gauss")])
prop("S02", "Conservation: domain totals change only through the boundary faces",
     "For every solution state the time derivative of the domain integral of every conserved field equals the numerical flux through the left "
     "boundary face minus that through the right one; on a periodic domain it is zero. A complete time step of any integrator, with the "
     "limiter on or off, changes the periodic totals by nothing beyond rounding.",
     ["inputs", "configurations", "histories"], "all states, all face-flux values, orders 0..5, 1..17 elements, every Runge-Kutta scheme",
     "Tests sample one advection and six shock-tube runs that are far from the boundary and never check a total.",
     ["dg1d/dg.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/solution.py"],
     [("face flux difference", "dg1d/dg.py:add_interior_face_fluxes"), ("cell average kept", "dg1d/limiting.py:limit_monomial"),
      ("linear combination of stages", "dg1d/rk.py:classic_rk")])
prop("S03", "A uniform flow stays exactly uniform",
     "If every cell holds the same constant admissible state, the residual vanishes for every Riemann solver, order, element count and boundary type, "
     "no sensor fires for positive thresholds, the limiter leaves the state alone, and advancing in time with any integrator returns the same state.",
     ["inputs", "configurations"], "all admissible constant states, all solvers, both boundary types, orders 0..4, every integrator",
     "No test runs a uniform flow.",
     ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/advection_physics.py", "dg1d/rk.py", "dg1d/limiting.py"],
     [("flux consistency", "dg1d/euler_physics.py"), ("residual", "dg1d/dg.py")])
prop("S04", "Periodic problems have no preferred cell (translation equivariance)",
     "On a periodic domain, cyclically shifting the initial cell data by any number of cells shifts the residual, the sensors, the limited solution and the "
     "result of a whole time step by the same number of cells, for every order, integrator and limiting choice.",
     ["inputs", "configurations"], "all states and all shifts, orders 0..4, up to 9 elements, with and without the limiter, each integrator for whole steps",
     "The regression runs are non-periodic and nothing happens near their boundaries; unit tests look at one fixed state.",
     ["dg1d/dg.py", "dg1d/limiting.py", "dg1d/rk.py", "dg1d/solution.py"],
     [("ghost cells", "dg1d/solution.py:apply_bc"), ("limiter neighbours", "dg1d/limiting.py:adaptive_hr"), ("stage order", "dg1d/rk.py")])
prop("S05", "Euler discretisation is mirror symmetric",
     "Reflecting space (reversing cell order, negating momentum and flipping the sign of odd Legendre modes) maps the numerical flux, the residual, the "
     "wave speed, the contact marks and the limited solution to their reflected counterparts, for every Riemann solver.",
     ["inputs", "configurations"], "all admissible interface states (each solver; Godunov up to a bounded number of iterations), residual orders 0..3, limiter orders 1..3",
     "Every tested shock tube has its strong side on the left.",
     ["dg1d/euler_physics.py", "dg1d/dg.py", "dg1d/limiting.py"],
     [("Riemann solvers", "dg1d/euler_physics.py:riemann_*"), ("sensing", "dg1d/euler_physics.py:sensing")])
prop("S06", "Upwind DG advection never gains energy",
     "For every periodic advection state, the residual makes the L2 energy decrease at exactly half the sum of the squared face jumps, "
     "so the energy never grows in the semi-discrete scheme.",
     ["inputs", "configurations"], "all states with coefficients in [-1,1], orders 0..5, 1..6 elements",
     "No test computes an energy; stability is only looked at in a plotting script.",
     ["dg1d/dg.py", "dg1d/basis.py", "dg1d/advection_physics.py"],
     [("upwind flux", "dg1d/advection_physics.py:riemann_upwinding"), ("residual", "dg1d/dg.py")])
prop("S07", "The advection residual differentiates polynomials exactly",
     "If the cell data represent one global polynomial of degree at most the order of the scheme, the residual of every cell whose upstream neighbour also "
     "carries it is exactly minus the derivative of that polynomial; with interface enhancement by k modes the face values are exact for degree up to order + k.",
     ["inputs", "configurations"], "all polynomials with coefficients in [-1,1], orders 0..6, every admissible set of at most three enhancement modes for orders up to 4",
     "Tests check matrices of one order and one face-value table.",
     ["dg1d/dg.py", "dg1d/basis.py", "dg1d/enhance.py"],
     [("basis", "dg1d/basis.py:Basis"), ("enhanced traces", "dg1d/enhance.py:Enhance")])
prop("S08", "Boundary conditions are set by the interior data alone",
     "Applying boundary conditions makes each periodic ghost cell equal to the opposite interior cell and each zero-gradient ghost cell equal to the adjacent "
     "interior cell, leaves the interior untouched, and works however the boundary names were obtained (built-in setup or loaded file). Whatever the ghost cells held before, "
     "the interior residual and the limited interior solution depend on the interior cells only.",
     ["inputs", "configurations", "histories"], "all states and all stale ghost contents, orders 0..4, 1..6 elements, both systems, all boundary combinations",
     "No test sets or reads a ghost cell.",
     ["dg1d/solution.py", "dg1d/dg.py", "dg1d/limiting.py"],
     [("ghost fill", "dg1d/solution.py:apply_bc"), ("limiting", "dg1d/limiting.py:adaptive_hr")])
prop("S09", "Evaluations are pure: no result depends on earlier calls",
     "Residual, face values, sensors and limiting depend only on the solution passed in, not on what the same solver objects were used for before; "
     "the residual changes no interior value of its argument; and a copy of a solution shares no mutable data with the original.",
     ["inputs", "histories"], "two arbitrary consecutive states through the same objects compared with fresh objects, orders 0..3, both systems",
     "Unit tests call each function once on fresh objects.",
     ["dg1d/dg.py", "dg1d/enhance.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/solution.py"],
     [("pre-allocated work arrays", "dg1d/dg.py:DG.__init__, dg1d/enhance.py, dg1d/limiting.py"), ("deep copy", "dg1d/solution.py:copy")])
# ------------------------------------------------------------------ fluxes
prop("F01", "Every Riemann flux is consistent with the physical flux",
     "When both sides of an interface hold the same admissible state, each numerical flux (advection upwind; Euler Rusanov, Roe, Godunov) equals the physical flux "
     "(mass rho*v, momentum rho*v^2+p, energy (E+p)*v; u for advection) of that state, for any ratio of specific heats in use.",
     ["inputs", "configurations"], "all states with positive density and pressure, subsonic and supersonic, gamma in {7/5, 5/3, 3} or symbolic where the flux is algebraic",
     "Tests sample six pairs of different states.",
     ["dg1d/euler_physics.py", "dg1d/advection_physics.py"],
     [("solvers", "dg1d/euler_physics.py:riemann_rusanov/roe/godunov"), ("physical flux", "dg1d/euler_physics.py:interior_flux")])
prop("F02", "Each interface flux depends only on its own two states",
     "Evaluating a flux for many interfaces at once gives, at every interface, exactly what evaluating it for that interface alone gives, and leaves the input states unchanged.",
     ["inputs", "configurations"], "all admissible states at one interface inside a batch of 1..3 (Euler) or 1..40 (advection) interfaces, every position",
     "The tests compare one fixed batch with stored numbers.",
     ["dg1d/euler_physics.py", "dg1d/advection_physics.py"],
     [("vectorised solvers", "dg1d/euler_physics.py"), ("scalar loop in the Godunov solver", "dg1d/euler_physics.py:riemann_godunov")])
prop("F03", "Supersonic interfaces are fully upwinded",
     "If all characteristic speeds of both states (and of the Roe average, for Roe) point the same way and do not increase across the interface, the Roe and Godunov fluxes equal the physical "
     "flux of the upstream state; the advection flux is always the left value.",
     ["inputs"], "all admissible states satisfying the condition, both directions, gamma = 7/5",
     "Only one tested pair is supersonic.",
     ["dg1d/euler_physics.py", "dg1d/advection_physics.py"],
     [("wave decomposition", "dg1d/euler_physics.py:riemann_roe"), ("supersonic branches", "dg1d/euler_physics.py:riemann_godunov")])
prop("F04", "Roe and Godunov resolve every contact discontinuity exactly",
     "For two states with equal velocity and pressure but arbitrary densities, the Roe and Godunov fluxes equal the physical flux of the upstream state; "
     "for zero velocity the flux is exactly (0, p, 0).",
     ["inputs"], "all densities, pressures and velocities, gamma = 7/5",
     "The one contact regression uses Rusanov and cannot see it.",
     ["dg1d/euler_physics.py"],
     [("contact wave", "dg1d/euler_physics.py:riemann_roe, riemann_godunov")])
prop("F05", "The Roe flux satisfies the shock jump relations",
     "For two states joined by a single stationary Rankine-Hugoniot shock the Roe flux equals the common physical flux of both sides, for either orientation of the shock.",
     ["inputs"], "all upstream states and all Mach numbers above 1 (bounded), both orientations, gamma = 7/5",
     "No test uses an isolated shock.",
     ["dg1d/euler_physics.py"], [("Roe average and wave strengths", "dg1d/euler_physics.py:riemann_roe")])
prop("F06", "The Rusanov flux keeps density and pressure positive",
     "For every pair of admissible states the Rusanov flux is the average of the physical fluxes minus half of s times the jump, with s the larger of |v|+a on both sides; "
     "consequently a first-order update obeying the CFL limit keeps density and internal energy positive.",
     ["inputs"], "all admissible interface pairs, gamma = 7/5; positivity of the associated intermediate state",
     "Tests compare six pairs with stored numbers.",
     ["dg1d/euler_physics.py"], [("dissipation", "dg1d/euler_physics.py:riemann_rusanov")])
prop("F07", "Euler fluxes and speeds obey dimensional scaling",
     "Multiplying all conserved variables by a positive factor multiplies the physical, Rusanov and Roe fluxes by it and leaves wave speeds and sensors unchanged; "
     "rescaling velocities by s (momentum by s, energy by s^2) scales the three fluxes by s, s^2, s^3 and the wave speed by s.",
     ["inputs"], "all admissible states and all positive factors in a box",
     "All test states are of order one to a thousand, compared with stored numbers.",
     ["dg1d/euler_physics.py"], [("solvers", "dg1d/euler_physics.py")])
prop("F08", "The maximum wave speed bounds every characteristic in the domain",
     "The maximum wave speed is the largest |v|+sqrt(gamma*p/rho) over the cell averages of all cells (1 for advection): it is attained by some cell and no cell exceeds it, wherever "
     "the fastest cell sits and whichever way it moves.",
     ["inputs", "configurations"], "all admissible cell averages, 1..4 cells, gamma in {7/5, 5/3, 3}",
     "One test evaluates one batch.",
     ["dg1d/euler_physics.py", "dg1d/advection_physics.py", "dg1d/solution.py"],
     [("wave speed", "dg1d/euler_physics.py:max_wave_speed")])
prop("F09", "The Godunov flux is the flux of the exact Riemann solution at the interface",
     "For two states whose Riemann problem is solved by rarefactions (or no wave) on either side of a contact, the Godunov flux equals the physical flux of the exact self-similar solution at x/t = 0, "
     "wherever the interface falls: in an outer state, inside a transonic fan, or on either side of the contact. The mass flux through each wave is that of the exact shock or isentropic relation, and with shocks met subsonically the interface flux is built from those mass fluxes exactly.",
     ["inputs"], "all states joined by rarefactions, shocks met subsonically and a contact within a box, gamma in {7/5, 5/3, 2, 3}",
     "Tests compare six pairs with stored numbers.",
     ["dg1d/euler_physics.py"], [("exact Riemann solver", "dg1d/euler_physics.py:riemann_godunov, massflux, sonic")])
prop("F10", "The Roe flux weights each characteristic part of the jump by its speed",
     "For every pair of admissible states the Roe flux is the mean of the two physical fluxes minus half the sum of the characteristic parts of the jump, "
     "taken at the Roe average of the two states, each weighted with the magnitude of its speed. Only an acoustic speed lying inside its own expansion fan "
     "(|lambda| < D/2, D = 4*max(0, lambda_right - lambda_left)) is weighted with lambda^2/D + D/4 instead; compressive and contact waves get no extra dissipation.",
     ["inputs"], "all pairs of admissible states in a box, several gamma",
     "Tests compare six pairs with stored numbers; they reach the entropy fix in few of them.",
     ["dg1d/euler_physics.py"], [("Roe flux", "dg1d/euler_physics.py:riemann_roe")])
# ------------------------------------------------------------------ limiter
prop("L01", "Limiting never changes a cell average",
     "For every cell and every neighbour data, hierarchical reconstruction returns a polynomial with the same cell average; hence limiting a whole solution keeps all cell averages of all fields.",
     ["inputs", "configurations"], "all cell and neighbour polynomials in a box, orders 1..5 per cell, whole solutions with all cells flagged for orders 1..2",
     "Tests compare a handful of polynomials of orders 1..3 with stored numbers.",
     ["dg1d/limiting.py"], [("hierarchical reconstruction", "dg1d/limiting.py:hr, limit_monomial")])
prop("L02", "Limiting acts on flagged interior cells only, field by field",
     "Cells whose sensor is off keep every coefficient bit for bit; a flagged cell is replaced, in every field, by the reconstruction computed from that same field of the unlimited cell and its two unlimited neighbours. "
     "Without limiting requested nothing changes.",
     ["inputs", "configurations"], "every sensor pattern, all states, 1..4 elements, both systems, orders 1..3",
     "The tests never run the limiter over a solution.",
     ["dg1d/limiting.py", "dg1d/sensor.py"], [("element loop", "dg1d/limiting.py:adaptive_hr")])
prop("L03", "Limited coefficients are the minmod of the neighbour differences",
     "In the limited polynomial, each derivative coefficient of order m is the minmod of the two one-sided differences of the cell averages of the (m-1)-th derivative, after subtracting the already limited higher-order remainder; "
     "its magnitude never exceeds either difference and it is zero when they disagree in sign. In particular, at order 1 limited face values stay between neighbouring averages.",
     ["inputs", "configurations"], "all polynomials in a box, orders 1..4",
     "Tests compare fewer than ten polynomials with stored numbers.",
     ["dg1d/limiting.py"], [("minmod", "dg1d/limiting.py:scalar_minmod"), ("remainder integrals", "dg1d/limiting.py:integrate_monomial_derivative_bounds")])
prop("L04", "Limiting leaves a smooth global polynomial alone",
     "If a cell and its two neighbours all carry the same global polynomial of degree at most the order of the scheme, hierarchical reconstruction returns the cell unchanged.",
     ["inputs", "configurations"], "all polynomials with coefficients in [-1,1], orders 1..5",
     "No test uses smooth data in the limiter.",
     ["dg1d/limiting.py"], [("hierarchical reconstruction", "dg1d/limiting.py:limit_monomial")])
prop("L05", "Limiting commutes with scaling and offsets of the data",
     "Adding a constant to a field in a cell and its neighbours adds that constant to the limited cell, and multiplying them by any factor multiplies the result by it, so limiting is independent of units.",
     ["inputs", "configurations"], "all polynomials, offsets and factors in {-3,-1,0,1/2,2,...} applied to symbolic data, orders 1..3",
     "No test relates two limiter calls.",
     ["dg1d/limiting.py"], [("minmod", "dg1d/limiting.py:scalar_minmod")])
prop("L06", "Legendre and Taylor representations describe the same polynomial",
     "Converting cell coefficients from Legendre to Taylor form gives the value and derivatives at the cell centre of the same polynomial, and converting back returns the original coefficients.",
     ["inputs", "configurations"], "all coefficients in a box and all evaluation points in [-1,1], orders 0..7",
     "Tests convert single vectors of orders 1..3.",
     ["dg1d/limiting.py"], [("transform matrices", "dg1d/limiting.py:Limiter.__init__")])
# ------------------------------------------------------------------ sensors
prop("N01", "The advection sensor flags exactly the cells next to a large jump",
     "A cell is flagged if and only if the jump d of cell averages to one of its two neighbours satisfies 2d/(1+d)^2 > threshold; "
     "higher modes and earlier sensor values play no role.",
     ["inputs", "histories", "configurations"], "all states with averages in a box, any earlier sensor contents, 1..6 elements, all thresholds in [0,1]",
     "One sine wave is tested.",
     ["dg1d/advection_physics.py", "dg1d/sensor.py"], [("sensing", "dg1d/advection_physics.py:sensing"), ("reset", "dg1d/sensor.py:sensing")])
prop("N02", "The Euler sensors separate contacts, shocks and smooth flow",
     "Next to an interface, cells are marked 1 when the Roe contact strength relative to the summed densities exceeds the first threshold and 2 when the relative pressure jump exceeds the second and the "
     "acoustic speeds converge across the Roe-average speed; a shock mark wins over a contact mark. "
     "A pure contact is never marked as a shock, an expansion is never marked as a shock, and cells away from flagged interfaces stay 0.",
     ["inputs", "histories", "configurations"], "all admissible averages at one or two interfaces, any earlier sensor contents, thresholds in [0,1]",
     "One state with one shock and one contact is tested.",
     ["dg1d/euler_physics.py", "dg1d/sensor.py"], [("sensing", "dg1d/euler_physics.py:sensing")])
# ------------------------------------------------------------------ time
prop("T01", "Every requested output is written once, at its requested time",
     "For every sequence of stable time steps, a run writes exactly the requested number of outputs, numbered 0,1,2,... in order, the i-th at the i-th of the equally spaced times between start and final time; "
     "the last one is at the final time and then the run stops. The state written is the state advanced to that time.",
     ["inputs", "histories", "configurations"], "all sequences of CFL steps (bounded number), all final times, 2..5 outputs, every integrator",
     "Tests call the step-adjustment three times with fixed numbers; the regressions use two outputs only.",
     ["dg1d/rk.py", "dg1d/solution.py"], [("step adjustment", "dg1d/rk.py:adjust_for_output"), ("main loop", "dg1d/rk.py:classic_rk, low_storage_rk4")])
prop("T02", "Time advances monotonically and never exceeds the stable step",
     "For every finite time, output time, final time and stable step in double precision, the adjusted step is never longer than the stable step, never negative, and adding it to the current time never overshoots the next output or final time by more than rounding; "
     "the run is declared finished exactly when the step reaches the final time.",
     ["inputs"], "all doubles with t <= output time <= final time in [0, 1e6] (bit-precise IEEE-754)",
     "Three hand-picked cases are tested.",
     ["dg1d/rk.py"], [("step adjustment", "dg1d/rk.py:adjust_for_output")])
prop("T03", "Broken states stop the run instead of being integrated",
     "Whatever the maximum wave speed turns out to be - NaN, infinite, negative or huge - the run exits before taking a step whenever the stable step is NaN or below 1e-14, and never exits for a larger step.",
     ["inputs", "fault_sequences"], "all doubles including NaN and infinities for wave speed, cell size and CFL number (bit-precise IEEE-754)",
     "No test reaches the abort.",
     ["dg1d/rk.py"], [("sanity check", "dg1d/rk.py:sanity_check_dt"), ("order of checks", "dg1d/rk.py:get_next_time_step")])
prop("T04", "Each Runge-Kutta option has the order of accuracy it is named after",
     "Selecting rk3, rk4, rk5, rk6, rk8, rk10, rk12, rk14 or the low-storage RK4 makes one step of the integrator match the Taylor series of the exact flow through order 3, 4, 5, 6, 8, 10, 12, 14 or 4 "
     "for every smooth right-hand side, including right-hand sides that depend on time.",
     ["inputs", "programs", "configurations"], "all right-hand sides (one differential equation per rooted tree) and all step sizes in (0,1], trees up to the named order (quick: up to order 9)",
     "Only the RK4 and RK8 options are used in one regression each; a wrong digit in another table goes unnoticed.",
     ["dg1d/rk.py", "dg1d/rk_coeffs.py"], [("tables", "dg1d/rk_coeffs.py"), ("dispatch", "dg1d/rk.py:integrate")])
prop("T05", "The low-storage integrator is the classic RK4 method",
     "For every right-hand side, limiter, initial state and output schedule, the low-storage RK4 option produces the same states at the same times as the classic RK4 option, and an unrecognised option falls back to classic RK4.",
     ["inputs", "programs", "histories"], "arbitrary (uninterpreted) residual and limiter functions, all initial states, all step sizes, up to three steps",
     "The low-storage integrator is never run by a test.",
     ["dg1d/rk.py"], [("low storage", "dg1d/rk.py:low_storage_rk4"), ("classic", "dg1d/rk.py:classic_rk")])
prop("T06", "When limiting is on, only limited states are advanced or written",
     "With a limiter configured, every intermediate stage state except the first of a step is limited before its residual is evaluated, and the state at the end of each step is limited before it is written or advanced; "
     "the first stage reuses the already limited state.",
     ["inputs", "programs", "configurations"], "arbitrary residual and limiter functions, all integrators, up to two steps",
     "The regressions would detect only changes that alter six stored solutions.",
     ["dg1d/rk.py", "dg1d/main.py"], [("stage loop", "dg1d/rk.py:classic_rk, low_storage_rk4")])
prop("T07", "The stable step follows the CFL formula",
     "The stable time step is the CFL number times the cell size divided by the maximum wave speed times (2*order+1), for every order, mesh and state.",
     ["inputs", "configurations"], "all CFL numbers, cell sizes and wave speeds, orders 0..8, both systems",
     "No test computes a CFL step; the shock tubes would pass with any stable step of similar size.",
     ["dg1d/rk.py"], [("CFL", "dg1d/rk.py:cfl_time_step")])
# ------------------------------------------------------------------ setup and I/O
prop("I01", "Initial data are the exact projection on a uniform partition",
     "The elements partition the domain into equal cells with centroids at their middles, and each cell's coefficients are the least-squares (L2) projection of the initial profile: any profile that is a polynomial of degree at most the order "
     "is reproduced exactly in every cell and field, and otherwise the profile is matched at the Gauss nodes.",
     ["inputs", "configurations"], "all polynomial profiles with coefficients in a box, all values at the Gauss nodes, orders 0..6, 1..12 elements, all domains",
     "Tests project x^2 and sin on one interval.",
     ["dg1d/solution.py", "dg1d/basis.py"], [("mesh", "dg1d/solution.py:setup_common_ic"), ("projection", "dg1d/basis.py:projection")])
prop("I02", "Built-in initial conditions describe the documented flows",
     "The shock tube puts the given left and right (density, velocity, pressure) on the respective sides of the given position; the entropy and acoustic waves, the simple wave and the Shu-Osher profiles have their documented primitive fields, are positive everywhere, and all "
     "energies equal p/(gamma-1)+rho*v^2/2 with the ratio of specific heats the run uses afterwards.",
     ["inputs"], "all positions in the domain, all shock-tube parameters (positive density and pressure)",
     "Only shock-tube setups are exercised, through stored solutions.",
     ["dg1d/solution.py", "dg1d/constants.py"], [("initial condition functions", "dg1d/solution.py:scktube, simplew, entrpyw, acsticw, shuoshe")])
prop("I03", "Writing then loading a solution returns the same solution",
     "For every solution with at least two elements, writing output k and loading output k into a new object restores step count, time, boundary types, mesh, order and every interior coefficient of every field, and the loaded solution can have its boundary conditions applied and be evaluated like the original.",
     ["inputs", "configurations"], "all coefficients, times and step counts, orders 0..5, 2..6 elements, both systems, both boundary types",
     "Nothing tests the loader; regressions read the files with numpy directly.",
     ["dg1d/solution.py"], [("printer", "dg1d/solution.py:printer"), ("loader", "dg1d/solution.py:loader")])
prop("P01", "The plotting tools draw the solution the files hold",
     "For every output written by a run, the general plotting tool (dg1d/plot.py) draws, per field and for every interior cell and no other, the solution at the cell's Gauss nodes and its one-sided values at the two cell edges, at their physical positions, "
     "and the shock-tube tool (regressions/plot.py) draws the cell averages at the cell centres next to the exact solution; Euler output appears as density, velocity and pressure of a gas with ratio of specific heats 1.4. The output drawn is the one asked for, and its sensor marks are drawn when sensor files exist.",
     ["inputs", "configurations"], "all solution states with positive density, all meshes in a box, both systems, orders 0..3, 2..9 cells, several outputs on disk",
     "Nothing tests the plotting tools; the pictures are looked at, not checked.",
     ["dg1d/plot.py", "regressions/plot.py", "dg1d/solution.py"], [("general tool", "dg1d/plot.py"), ("shock-tube tool", "regressions/plot.py"), ("loader", "dg1d/solution.py:loader")])
prop("P02", "The convergence study measures the runs on disk",
     "For every set of finished runs, the convergence tool (advection_convergence/plot.py) draws, for each of its orders and every resolution found on disk in increasing order, half the root-mean-square difference of the cell averages between the first and the eleventh output against the number of cells "
     "and against the elapsed time in the log file, next to a reference line through the first error that falls with the power 2*order+1 of the number of cells.",
     ["inputs", "configurations"], "all cell averages and higher coefficients in a box, several resolutions in any order on disk, run times up to more than a day",
     "Nothing tests the study; it is run by hand.",
     ["advection_convergence/plot.py"], [("error norm", "advection_convergence/plot.py:error_norm"), ("timer", "advection_convergence/plot.py:get_timer")])
prop("I04", "Deck files are read back exactly as written, in any section order",
     "Every setting written to a deck (system, integrator, Riemann solver, initial condition, outputs, final time, CFL number, order, limiting, enhancement, sensor thresholds) is recovered unchanged by the parser, whatever the order of the sections; "
     "unknown sections are ignored, omitted ones keep their defaults and a later repetition wins.",
     ["inputs", "configurations"], "all values, every sequence of up to three sections (known or unknown), plus complete decks in rotated orders",
     "The regressions use one section order and never write decks.",
     ["dg1d/deck.py"], [("parser", "dg1d/deck.py:Deck.parser"), ("writer", "dg1d/deck.py:write_deck")])
prop("I05", "The configured system, solver, order and limiter are what runs",
     "The solution built from a deck uses the PDE system, Riemann solver (Roe when unspecified or unknown), order, enhancement, limiter and integrator named there, with the field count of that system, and falls back to the documented default only for unknown names.",
     ["configurations", "inputs"], "every combination of named options, arbitrary interface states",
     "Two Riemann solvers and two integrators are exercised by regressions.",
     ["dg1d/solution.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/main.py"], [("dispatch tables", "dg1d/solution.py:set_manipulation_functions"), ("integrator dispatch", "dg1d/rk.py:integrate")])
# ------------------------------------------------------------------ basis / enhancement
prop("B01", "Basis operations are exact for every polynomial",
     "Gauss quadrature with the basis nodes integrates every polynomial of degree up to 2*order+1 exactly, node and edge evaluation matrices evaluate the Legendre expansion, the mass matrix and its inverse are the Legendre norms, shifting a polynomial by s evaluates to l(x+s) for every x, "
     "and the product integral equals the integral over [-1,1].",
     ["inputs", "configurations"], "all coefficients and points in a box, orders 0..8, shifts in [-3,3]",
     "Tests check single polynomials of order up to 3.",
     ["dg1d/basis.py"], [("Basis", "dg1d/basis.py:Basis"), ("helpers", "dg1d/basis.py:shift_legendre_polynomial, integrate_legendre_product")])
prop("E01", "Enhanced reconstruction honours own and neighbour modes",
     "The enhanced polynomial of a cell has the cell's own modes and, in the neighbouring cell, the requested modes of the neighbour's solution; the enhanced face values are its values at the shared face, from the left and from the right, whatever order the requested modes are listed in.",
     ["inputs", "configurations"], "all solution states, every non-empty set and listing of at most three admissible modes for orders 0..3, 1..4 interior cells, 1 or 3 fields",
     "Tests check one matrix (order 1) and one face table (order 2).",
     ["dg1d/enhance.py"], [("enhancement matrices", "dg1d/enhance.py:enhancement_matrices, left_enhancement_vectors, face_value")])
# ------------------------------------------------------------------ analysis
prop("A01", "The stability analysis studies the operator the solver runs",
     "For every state of a periodic advection problem, the matrices built by the stability-analysis script (standard and enhanced DG) applied with the cell-shift operator give the same residual as the solver, up to the mesh scaling.",
     ["inputs", "configurations"], "all states, orders 0..4, four cells, several enhancement sets",
     "The analysis scripts have no tests.",
     ["analysis/dg_stability.py", "dg1d/dg.py", "dg1d/enhance.py"], [("matrices", "analysis/dg_stability.py:dg_matrices, icb_matrices")])
prop("A02", "The Runge-Kutta stability analysis uses the integrator's own scheme",
     "For every integrator name, the tableau the stability script uses gives the same amplification factor det(I - zB + z e b^T) as one step of the actual integrator on u' = lambda*u, for every real z = lambda*dt; and the quantity whose unit contour the script draws as the stability boundary is, at every complex z of its grid and its mirror image, the factor by which such a step multiplies the modulus of the solution.",
     ["inputs", "configurations"], "all z in [-1,1], all schemes; complex z at points of the script's grid, all initial values",
     "The analysis scripts have no tests.",
     ["analysis/rk_stability.py", "dg1d/rk.py", "dg1d/rk_coeffs.py"], [("tableau", "analysis/rk_stability.py:get_formatted_rk_coeffs"), ("drawn contour", "analysis/rk_stability.py:approximate_stability_bndry")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
