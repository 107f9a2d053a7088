"""Path exploration of one harness instance and discharge of its assertions."""
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Infeasible, Inconclusive, Options, PathState, Stats, Unsupported


class Candidate:
    def __init__(self, label, inputs, source, exc=None):
        self.label, self.inputs, self.source, self.exc = label, inputs, source, exc


def znum(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return float(Fraction(n, d))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise ValueError(str(v))


def model_inputs(h, m):
    out = {}
    for n, g in h.names.items():
        v = m.eval(g.z, model_completion=False)
        try:
            out[n] = znum(v)
        except (ValueError, z3.Z3Exception):
            lo = float(g.lo) if g.lo is not None else 0.0
            hi = float(g.hi) if g.hi is not None else lo
            out[n] = 0.5 * (lo + hi) if not g.is_int else lo
    return out


def pool_inputs(h, st, k):
    return {n: float(st.pool_vals[g.idx][k]) for n, g in h.names.items()}


def explore(inst, seed=1, deadline=None):
    """Runs every path; returns a result dictionary."""
    from .harness import SymH, resolve
    fn = resolve(inst["body"])
    o = dict(inst["opts"])
    budget = o.pop("budget", 200)
    opts = Options(seed=seed, **o)
    t0 = time.time()
    opts.deadline = min(deadline or 1e18, t0 + budget)
    stats = Stats()
    res = {"name": inst["name"], "candidates": [], "problems": [], "witness": None}
    work = [[]]
    witness_tries = 0
    while work:
        if len(res["candidates"]) >= opts.max_violations * 3:
            break
        if stats.paths >= opts.max_paths:
            res["problems"].append("path bound %d reached" % opts.max_paths)
            break
        if time.time() > opts.deadline:
            res["problems"].append("time budget of the instance exhausted after %d paths" % stats.paths)
            break
        prefix = work.pop()
        st = PathState(prefix, opts, stats)
        core.set_state(st)
        stats.paths += 1
        h = SymH(st)
        try:
            np.seterr(all="ignore")
            fn(h, **inst["params"])
            done = True
        except Infeasible:
            done = False
        except core.Skip as e:
            res["skipped"] = str(e)
            done = False
            stats.obligations = stats.normalised = stats.unsat = 0
            break
        except Unsupported as e:
            done = False
            res["problems"].append("unsupported: %s" % e)
            tb = traceback.extract_tb(e.__traceback__)
            res["where"] = ["%s:%d" % (f.filename, f.lineno) for f in tb[-6:]]
            if not inst["opts"].get("soft"):
                # no verdict here; points of the path so far still go to the real code, which may refute the property
                try:
                    for src, inp in path_models(h, st, opts) or []:
                        res["candidates"].append(Candidate("path left the encodable code", inp, src))
                except (z3.Z3Exception, Unsupported, Inconclusive):
                    pass
            break
        except Inconclusive as e:
            done = False
            res["problems"].append(str(e))
        except z3.Z3Exception as e:
            done = False
            res["problems"].append("z3: %s" % e)
        except (Exception, SystemExit) as e:
            done = True
            stats.exc_paths += 1
            res["last_exception"] = traceback.format_exc().splitlines()[-8:]
            h.exc = "%s: %s" % (type(e).__name__, e)
            h.pending = [("exception " + h.exc, True, None)]
        work.extend(st.alternatives)
        if done:
            stats.complete += 1
            try:
                cands = discharge(h, st, opts, res)
                cands += jittered(h, st, cands)
            except z3.Z3Exception as e:
                res["problems"].append("z3: %s" % e)
                cands = []
            res["candidates"].extend(cands)
            if res["witness"] is None and witness_tries < 4 and not cands:
                witness_tries += 1
                res["witness"] = make_witness(h, st)
    stats.wall = time.time() - t0
    if inst["opts"].get("soft") and res["problems"] and not res["candidates"]:
        # an instance beyond what the property needs: left undecided, and listed as such in the evidence
        res["undecided"], res["problems"] = res["problems"], []
    res["stats"] = stats.as_dict()
    res["candidates"] = [vars(c) for c in res["candidates"]]
    res["codes"] = None
    return res


def make_witness(h, st):
    """Inputs of this path and the values the encoding predicts there."""
    ks = np.nonzero(st.pool_alive)[0] if st.pool_n else []
    if len(ks):
        k = int(ks[-1])
        vals = []
        uses_uf = any(g.kind == "uf" for g in st.gens)
        if not uses_uf:
            for label, s in h.values[:200]:
                v = st.pool_eval(s)[k]
                if np.isfinite(v):
                    vals.append((label, float(v)))
        return {"inputs": pool_inputs(h, st, k), "values": vals, "decisions": len(st.decisions)}
    r, m = st.check([], timeout=5000)
    if m is None:
        return None
    return {"inputs": model_inputs(h, m), "values": [], "decisions": len(st.decisions)}


def recheck_closed(h, st, res):
    """Equalities whose two sides have the same normal form are also put to the
    solver as `a != b` on the separate sides (an independent check of the normaliser)."""
    stats = st.stats
    todo = []
    seen = 0
    for label, a, b, tol in h.closed:
        if len(a.num) + len(b.num) > 400 or (a.is_const() and b.is_const()) or seen > 3000:
            continue
        seen += len(a.num)
        na, da = core.z_ratio(a)
        nb, db = core.z_ratio(b)
        e = na * db - nb * da
        t = core.zq(tol) * da * db if tol else core.zq(0)
        todo.append(z3.Or(e > t, e < -t) if tol and not a.den and not b.den else e != 0)
    for i in range(0, len(todo), 16):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(z3.simplify(z3.Or(todo[i:i + 16]), som=True))
        r = s.check()
        stats.queries += 1
        stats.solver_s += time.time() - t0
        if r == z3.unsat:
            k = len(todo[i:i + 16])
            stats.unsat += k
            stats.normalised -= k
        elif r == z3.sat:
            stats.recheck_sat = getattr(stats, "recheck_sat", 0) + 1


def discharge(h, st, opts, res):
    """Solver verdict for every pending assertion of a finished path."""
    stats = st.stats
    if h.closed and stats.complete <= 40:
        nl = st.nonlinear
        recheck_closed(h, st, res)
        st.nonlinear = nl
    out = []
    pend = h.pending
    if not pend:
        return out
    hard = [p for p in pend if p[1] is True]
    soft = [p for p in pend if p[1] is not True]
    if hard:
        # violated on the whole path: any model of the path condition is a counterexample
        c = path_models(h, st, opts)
        if c is None:
            return out            # path condition unsatisfiable
        if not c:
            res["problems"].append("cannot decide feasibility of a failing path (%s)" % hard[0][0])
            return out
        for src, inp in c:
            out.append(Candidate(hard[0][0], inp, src))
        return out
    # pool hint: a numeric point of this path that already violates an assertion
    alive = st.pool_alive if st.pool_n else None
    rest = []
    for label, neg, d in soft:
        hit = None
        if alive is not None and alive.any():
            sp = st.pool_split(neg)
            if sp is not None:
                bad = sp[0] & sp[1] & alive
                if bad.any():
                    ks = np.nonzero(bad)[0]
                    if d is not None:
                        mag = np.abs(st.pool_eval(d))
                        ks = ks[np.argsort(-mag[ks])]
                    hit = ks[:3]
        if hit is not None:
            for k in hit:
                v = confirm(h, st, neg, int(k))
                if v != z3.unsat:
                    out.append(Candidate(label, pool_inputs(h, st, int(k)), "solver (%s) at a fixed point" % v))
            if out:
                return out
        rest.append((label, neg, d))
    soft = rest
    # linear batch first
    negz = [(l, n.z(), d, n) for l, n, d in soft]
    if not st.nonlinear:
        for i in range(0, len(negz), 64):
            chunk = negz[i:i + 64]
            r, m = st.check([z3.Or([c[1] for c in chunk])], timeout=opts.timeout_ms)
            if r == z3.unsat:
                stats.unsat += len(chunk)
                continue
            if r == z3.sat:
                stats.sat += 1
                c = linear_counterexample(h, st, chunk, m, opts)
                out.append(c)
                z = [x[1] for x in chunk if x[0] == c.label]
                g = diversified(h, st, z[0], m, opts) if z and any(q.kind == "uf" for q in st.gens) else None
                if g is not None:
                    g.label = c.label
                    out.append(g)
                return out
            for c in chunk:
                one(h, st, c, opts, res, out)
        return out
    st.bounded = []
    for c in negz:
        one(h, st, c, opts, res, out)
        if out:
            break
    if not out and stats.complete <= 40:
        confirm_bounded(st)
    return out


def confirm_bounded(st):
    """Assertions closed by interval bounds of the normal form are also put to the solver."""
    stats = st.stats
    todo = st.bounded[:640]
    t1 = time.time()
    for i in range(0, len(todo), 16):
        if time.time() - t1 > 5:
            break
        chunk = todo[i:i + 16]
        r, m = st.check([z3.Or(chunk)], timeout=1000)
        if r == z3.unsat:
            stats.unsat += len(chunk)
            stats.normalised -= len(chunk)


def jittered(h, st, cands):
    """Paths that lose digits (text, single precision): the same counterexamples with all digits in use."""
    kinds = {g.info[0] for g in st.gens if isinstance(g.info, tuple) and g.info}
    if not cands or not kinds & {"fmt", "rnd"}:
        return []
    rng = np.random.default_rng(5)
    out = []
    # a rounding error of a given sign needs a lucky value: several draws
    for c in cands[:2] if "rnd" not in kinds else (cands[:2] * 12):
        inp = {}
        for n, v in c.inputs.items():
            g = h.names.get(n)
            if g is None or g.is_int or not isinstance(v, (int, float)):
                inp[n] = v
                continue
            x = float(v) * (1 + 0.01 * (rng.random() - 0.5)) + 1e-3 * (rng.random() - 0.5)
            if g.lo is not None and g.hi is not None:
                lo, hi = float(g.lo), float(g.hi)
                x = min(max(x, lo + 0.01 * rng.random() * (hi - lo)), hi - 0.01 * rng.random() * (hi - lo))
            inp[n] = x
        out.append(Candidate(c.label, inp, c.source + ", all digits in use"))
    return out


def diversified(h, st, neg, m, opts, checks=40):
    """A counterexample with as many inputs as possible at generic values: a model may put
    inputs on top of each other where uninterpreted functions differ and real ones cannot."""
    rng = np.random.default_rng(opts.seed + 17)
    ins = [g for g in h.names.values() if not g.is_int and g.lo is not None and g.hi is not None]
    ins = [ins[i] for i in rng.permutation(len(ins))]
    fixed = []
    best = m
    work = [ins]
    end = time.time() + 20
    while work and checks > 0 and time.time() < end:
        part = work.pop()
        if not part:
            continue
        eqs = []
        for g in part:
            lo, hi = float(g.lo), float(g.hi)
            lo, hi = max(lo, -1e3), min(hi, 1e3)
            v = Fraction(round((lo + (hi - lo) * (0.1 + 0.8 * rng.random())) * 256), 256)
            eqs.append(g.z == core.zq(v))
        checks -= 1
        r, m2 = st.check([neg] + fixed + eqs, timeout=1500)
        if r == z3.sat:
            fixed += eqs
            best = m2
        elif len(part) > 1:
            k = len(part) // 2
            work += [part[k:], part[:k]]
    return Candidate("", model_inputs(h, best), "solver model (generic inputs)") if fixed else None


def linear_counterexample(h, st, chunk, m, opts):
    label = "assertion"
    for c in chunk:
        if core.model_true(m, c[1]):
            label = c[0]
            if c[2] is not None:
                # look for a larger discrepancy so that the replay is clear-cut
                n, den = core.z_ratio(c[2])
                for big in (1, Fraction(1, 10), Fraction(1, 1000), Fraction(1, 10 ** 6)):
                    r, m2 = st.check([z3.Or(n > core.zq(big) * den, n < -core.zq(big) * den)], timeout=5000)
                    if r == z3.sat:
                        m = m2
                        break
            break
    return Candidate(label, model_inputs(h, m), "solver model")


def one(h, st, c, opts, res, out):
    label, zneg, d, neg = c
    stats = st.stats
    b = None
    if d is not None and neg.op in ("or", "cmp"):
        core.SIGN_TERMS = 5000
        try:
            q = core.quick_bool(neg)
        finally:
            core.SIGN_TERMS = 60
        if q is False:
            stats.normalised += 1
            if len(d.num) <= 60:
                st.bounded.append(zneg)
            return
    r, m = st.check([zneg], timeout=opts.timeout_ms)
    if r == z3.unsat:
        stats.unsat += 1
        return
    if r == z3.sat:
        stats.sat += 1
        out.append(Candidate(label, model_inputs(h, m), "solver model"))
        # second opinion with a larger discrepancy
        if d is not None:
            try:
                n, den = core.z_ratio(d)
                r2, m2 = st.check([n * n > core.zq(Fraction(1, 10 ** 4)) * den * den], timeout=5000)
                if r2 == z3.sat:
                    out.append(Candidate(label, model_inputs(h, m2), "solver model (large)"))
            except z3.Z3Exception:
                pass
        if any(q.kind == "uf" for q in st.gens):
            g = diversified(h, st, zneg, m, opts, checks=12)
            if g is not None:
                g.label = label
                out.append(g)
        return
    # unknown: look for a model with most inputs fixed
    rng = np.random.default_rng(opts.seed)
    ins = list(h.names.values())
    for attempt in range(6):
        fixed = []
        free = set(rng.permutation(len(ins))[:1 + attempt % 3])
        for i, g in enumerate(ins):
            if i in free:
                continue
            lo, hi = float(g.lo), float(g.hi)
            v = round((lo + (hi - lo) * rng.random()) * 64) / 64
            v = min(max(v, lo), hi)
            fixed.append(g.z == (int(round(v)) if g.is_int else core.zq(Fraction(v))))
        r, m = st.check([zneg] + fixed, timeout=2000)
        if r == z3.sat:
            stats.sat += 1
            out.append(Candidate(label, model_inputs(h, m), "solver model, inputs partly fixed"))
            return
    stats.unknown += 1
    res["problems"].append("unknown: %s" % label)


def confirm(h, st, neg, k):
    fixed = []
    for n, g in h.names.items():
        v = Fraction(float(st.pool_vals[g.idx][k]))
        fixed.append(g.z == (int(v) if g.is_int else core.zq(v)))
    r, m = st.check([neg.z()] + fixed, timeout=3000)
    return r


def path_models(h, st, opts):
    """[] unknown, None infeasible, else list of (source, inputs)."""
    out = []
    if st.pool_n and st.pool_alive.any():
        ks = np.nonzero(st.pool_alive)[0]
        for k in (ks[-1], ks[len(ks) // 2], ks[0]):
            out.append(("solver path condition at a fixed point", pool_inputs(h, st, int(k))))
        return out
    r, m = st.check([], timeout=opts.timeout_ms)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        return [("solver model", model_inputs(h, m))]
    return out
