"""Runs one property check: explore instances, replay counterexamples, write evidence."""
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
REPO = os.environ.get("DG1D_REPO", "/repo")

REGISTRY = {
    # id: props module
}


def registry():
    from props import INDEX
    return INDEX


def monitor_codes():
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symx")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO):
            seen.add("%s:%s" % (os.path.relpath(f, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)
    return seen


def child(inst, seed, deadline, wfd):
    try:
        seen = monitor_codes()
        kind = inst["opts"].pop("kind", "symx")
        if kind == "symx":
            from . import engine
            res = engine.explore(inst, seed, deadline)
        elif kind == "fp":
            from . import fp
            res = fp.explore(inst, seed, deadline)
        else:
            from .harness import resolve
            res = resolve(inst["body"])(inst, seed, deadline)
        res["codes"] = sorted(seen)
        out = pickle.dumps(res)
    except BaseException as e:  # noqa
        out = pickle.dumps({"name": inst["name"], "candidates": [], "problems": ["engine error: %r" % e] ,
                            "trace": traceback.format_exc(), "stats": {}, "witness": None, "codes": []})
    with os.fdopen(wfd, "wb") as f:
        f.write(out)
    os._exit(0)


class Concrete:
    """Replay server."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "symx", "concrete.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)

    def run(self, job):
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line) if line else {"status": "error", "exception": "replay process died"}

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


def load_findings():
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(kv.split("=", 1) for kv in line[8:].split("|")[0].split())
                d["text"] = line.partition("|")[2].strip()
                out.append(d)
    return out


def run_property(pid, tier, seed, jobs=8, verbose=False, only=None):
    t0 = time.time()
    idx = registry()
    modname = idx[pid]
    mod = importlib.import_module("props." + modname)
    spec = mod.PROPS[pid]
    instances = [i.as_dict() if hasattr(i, "as_dict") else i for i in spec["instances"](tier)]
    if only:
        instances = [i for i in instances if only in i["name"]]
    total_budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 7200)
    deadline = t0 + total_budget
    findings = [f for f in load_findings() if f.get("property") == pid]
    conc = Concrete()
    from . import engine, loader, npx  # noqa: F401  (imported before forking)
    queue = list(reversed(instances))
    running = {}
    results = []
    violations = []
    known = []
    unreproduced = []
    problems = []
    validated = 0
    mismatches = []
    samples = []

    def handle(inst, res):
        nonlocal validated
        res["inst"] = inst
        results.append(res)
        if verbose:
            s = res.get("stats", {})
            print("  %-60s paths=%s obl=%s norm=%s unsat=%s q=%s %.1fs solver %.1fs %s" % (
                inst["name"][:60], s.get("complete"), s.get("obligations"), s.get("normalised"), s.get("unsat"),
                s.get("queries"), s.get("wall", 0), s.get("solver_s", 0), res.get("problems") or ""), flush=True)
            if res.get("trace"):
                print(res["trace"])
            if res.get("where"):
                print("   ", res["where"])
            if res.get("last_exception") and res.get("candidates"):
                print("\n".join(res["last_exception"]))
        got = False
        for c in res["candidates"]:
            job = {"body": inst.get("concrete_body", inst["body"]), "params": inst["params"], "inputs": c["inputs"]}
            v = conc.run(job)
            if verbose:
                print("    candidate", c["label"], c["source"], c["inputs"], "->", v.get("status"), v.get("failures"), v.get("exception"))
            if v["status"] == "violated" or (v["status"] == "exception" and (c["label"].startswith("exception") or inst.get("exc_ok", True))):
                what = v["failures"][0][0] if v.get("failures") else v.get("exception")
                kf = [f for f in findings if f.get("instance", "") in inst["name"].replace(" ", "") and f.get("label", "") in what.replace(" ", "")]
                if kf:
                    known.append((kf[0], inst["name"], what))
                    got = True
                    continue
                violations.append((inst, c, v, job))
                got = True
                break
            unreproduced.append((inst["name"], c["label"], v["status"]))
        if res["candidates"] and not got:
            problems.append("%s: counterexample for '%s' did not reproduce on the real code (%s)" % (
                inst["name"], res["candidates"][0]["label"], res["candidates"][0].get("exc")))
        if not got:
            for p in res["problems"]:
                problems.append("%s: %s" % (inst["name"], p))
        w = res.get("witness")
        if not violations and w and inst.get("validate", True) and validated < spec.get("max_validate", 24):
            job = {"body": inst.get("concrete_body", inst["body"]), "params": inst["params"], "inputs": w["inputs"]}
            v = conc.run(job)
            if v["status"] in ("violated", "exception"):
                # the real code fails at a point the encoding accepted: a genuine failing input all the same
                what = v["failures"][0][0] if v.get("failures") else v.get("exception")
                kf = [f for f in findings if f.get("instance", "") in inst["name"].replace(" ", "") and f.get("label", "") in what.replace(" ", "")]
                if kf:
                    known.append((kf[0], inst["name"], what))
                else:
                    violations.append((inst, {"label": what, "inputs": w["inputs"], "source": "witness validation"}, v, job))
            elif v["status"] == "held":
                pred = dict(w["values"])
                bad = 0
                for l, x in v.get("values", []):
                    if l in pred and abs(pred[l] - x) > inst["opts"].get("loose", 1e-6) * (1 + abs(x)):
                        bad += 1
                if bad:
                    mismatches.append((inst["name"], bad))
                validated += 1
            if len(samples) < 3:
                samples.append({"instance": inst["name"], "path_decisions": w.get("decisions"),
                                "witness_inputs": dict(list(w["inputs"].items())[:8]), "real_code": v["status"],
                                "assertions_checked": v.get("checked")})

    while (queue or running) and not violations:
        while queue and len(running) < jobs:
            inst = queue.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(r)
                for fd in list(running):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                child(inst, seed, deadline, w)
            os.close(w)
            running[r] = (pid_, inst, [], time.time() + inst["opts"].get("budget", 200) + 120)
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                running[fd][2].append(data)
                continue
            pid_, inst, buf, _ = running.pop(fd)
            os.close(fd)
            os.waitpid(pid_, 0)
            try:
                res = pickle.loads(b"".join(buf))
            except Exception:
                res = {"name": inst["name"], "candidates": [], "problems": ["worker died"], "stats": {}, "witness": None, "codes": []}
            handle(inst, res)
        now = time.time()
        for fd in list(running):
            pid_, inst, buf, lim = running[fd]
            if now > lim:
                os.kill(pid_, signal.SIGKILL)
    for fd in list(running):
        os.kill(running[fd][0], signal.SIGKILL)
        os.waitpid(running[fd][0], 0)
        os.close(fd)
    conc.stop()

    # ------------------------------------------------------------ evidence
    tot = {}
    codes = set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        codes.update(r.get("codes") or [])
    if mismatches:
        problems.append("encoding/real-code value mismatch on witness paths: %s" % mismatches[:3])
    vacuous = [r["name"] for r in results if r.get("stats", {}).get("complete", 1) == 0 and not r["candidates"] and not r.get("skipped") and not r.get("undecided")]
    if vacuous and not violations:
        problems.append("no completed path (vacuous) in: %s" % vacuous[:4])
    nobl = tot.get("obligations", 0)
    if not violations and nobl == 0:
        problems.append("no obligation was generated")
    cov = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decisions", 0)),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"note": "no witness path"}],
        "obligations": int(nobl), "discharged": int(tot.get("normalised", 0) + tot.get("unsat", 0)),
        "discharged_by_solver_query": int(tot.get("unsat", 0)),
        "discharged_by_exact_normal_form": int(tot.get("normalised", 0)),
        "solver_queries": int(tot.get("queries", 0)), "solver_seconds": round(tot.get("solver_s", 0), 2),
        "paths_completed": int(tot.get("complete", 0)),
        "instances": len(results), "instances_planned": len(instances),
        "functions_encoded": sorted(codes), "bounds": spec["bounds"], "stubs": spec.get("stubs", "none"),
        "outside_the_claim": spec.get("outside", ""),
        "meaning": "states = symbolic paths started, transitions = symbolic branch decisions, traces_validated = witness paths re-run on the "
                   "unmodified code in doubles with the same assertions",
        "inconclusive": problems[:20], "unreproduced_candidates": len(unreproduced),
        "instances_skipped": ["%s: %s" % (r["name"], r["skipped"]) for r in results if r.get("skipped")][:40],
        "undecided_extra_instances": ["%s: %s" % (r["name"], r["undecided"]) for r in results if r.get("undecided")][:20],
        "instance_names": [i["name"] for i in instances][:120],
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    evd = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    path = os.path.join(evd, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    done = set()
    for f, n, what in known:
        if f["text"] not in done:
            done.add(f["text"])
            print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    print("%s %s: %d instances, %d paths, %d obligations (%d solver, %d normal form), %d queries, %.1fs solver, %.1fs wall, %d traces validated" % (
        pid, tier, len(results), cov["paths_completed"], cov["obligations"], cov["discharged_by_solver_query"],
        cov["discharged_by_exact_normal_form"], cov["solver_queries"], cov["solver_seconds"], ev["wall_s"], validated))
    if violations:
        inst, c, v, job = violations[0]
        rd = os.environ.get("SYMX_REPLAYS", os.path.join(HERE, "replays"))
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "instance": inst["name"], "assertion": c["label"], "found_by": c["source"], "job": job, "verdict_on_real_code": v,
                       "how": "bin/replay %s" % rp}, f, indent=1)
        print("  instance %s, assertion %s" % (inst["name"], c["label"]))
        print("  real code: %s" % (v.get("failures") or v.get("exception")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        for p in problems[:10]:
            print("INCONCLUSIVE %s" % p)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "symbolic inputs are exact real numbers; floating-point rounding of the code is outside the claim except for the tables and constants the code computes, which enter as the doubles it computes",
    "trusted: z3 5.x, the symbolic numpy layer in symx/ (validated per run on witness paths against the real code), CPython",
]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_property(a.property, a.tier, seed, jobs=a.j, verbose=a.v, only=a.only)
