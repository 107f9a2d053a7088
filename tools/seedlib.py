"""Plants and judges bugs in scratch copies of /repo (never in /repo itself).

seedlib.py make            writes seeded/<id>/ from tools/seeds.py and validates each in a scratch copy
seedlib.py run [ids...]    runs the checks against each kept seed
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"
PRE = '''"""Exits 0 when the behaviour is right, 1 when it is broken.  Run from the repository root."""
import io, os, sys, tempfile, contextlib
root = os.getcwd()
sys.path.insert(0, root)
sys.dont_write_bytecode = True
scratch = tempfile.TemporaryDirectory()
os.chdir(scratch.name)
import numpy as np
np.seterr(all="ignore")
from fractions import Fraction


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def done(ok, why=""):
    print("ok" if ok else "BROKEN " + why)
    os.chdir("/")
    sys.exit(0 if ok else 1)


'''


def sh(cmd, cwd, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy_repo(tag):
    d = os.path.join(WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo %s/repo" % d, "/")
    return d


def edit(root, edits):
    for fname, old, new, *n in edits:
        p = os.path.join(root, fname)
        s = open(p).read()
        k = n[0] if n else 0
        if s.count(old) < 1 or (not n and s.count(old) != 1):
            return "%s: %d matches of %r" % (fname, s.count(old), old)
        i = -1
        for _ in range(k + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    return None


def script(path, repo, name):
    s = open(path).read().replace("/repo", repo)
    open(name, "w").write(s)
    return name


def tests(d):
    repo = d + "/repo"
    script("/opt/vp/build.sh", repo, d + "/build.sh")
    script("/opt/vp/test.sh", repo, d + "/test.sh")
    rc, out = sh("bash %s/build.sh" % d, d)
    if rc:
        return "build: " + out[-300:]
    rc, out = sh("bash %s/test.sh %s/out.json" % (d, d), d)
    try:
        r = json.load(open(d + "/out.json"))
    except Exception:
        return "tests: " + out[-300:]
    return None if not r.get("failed") and len(r["passed"]) == 42 else "tests fail: %s" % r.get("failed")


def make_one(sd):
    d = copy_repo("mk_" + sd["id"])
    repo = d + "/repo"
    try:
        why = edit(repo, sd["edits"])
        if why:
            return sd["id"], why
        rc, diff = sh("git diff", repo)
        out = os.path.join(d, "seed")
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(PRE + sd["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["what"]}, open(out + "/meta.json", "w"), indent=1)
        rc0, o0 = sh("bash %s/demo.sh" % out, "/repo", 300)
        rc1, o1 = sh("bash %s/demo.sh" % out, repo, 300)
        if rc0 != 0 or rc1 == 0:
            return sd["id"], "demo: clean %d (%s), patched %d (%s)" % (rc0, o0[-400:], rc1, o1[-400:])
        why = tests(d)
        if why:
            return sd["id"], why
        dst = os.path.join(HERE, "seeded", sd["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sd["id"], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_check(prop, repo, tag):
    env = dict(os.environ, DG1D_REPO=repo, SYMX_EVIDENCE=os.path.join(WORK, "ev_" + tag), SYMX_REPLAYS=os.path.join(WORK, "rp_" + tag), VERIF_SEED="1", VERIF_TIER="quick")
    t = time.time()
    try:
        p = subprocess.run(["bin/check", prop, "--tier", "quick"], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True)
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired:
        return 124, "timeout", time.time() - t


def judge(sid, patch, props):
    d = copy_repo("run_" + sid)
    repo = d + "/repo"
    try:
        rc, o = sh("git apply %s" % patch, repo)
        if rc:
            return sid, "patch does not apply: " + o
        res = {}
        for p in props:
            rc, out, t = run_check(p, repo, sid)
            res[p] = (rc, round(t, 1), [l for l in out.splitlines() if "VIOLATION" in l or "INCONCLUSIVE" in l or "Error" in l][:3])
        return sid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    os.makedirs(WORK, exist_ok=True)
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    if mode == "make":
        import seeds
        todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids]
        if not ids:
            todo = [s for s in todo if not os.path.isdir(os.path.join(HERE, "seeded", s["id"]))]
        with cf.ThreadPoolExecutor(2) as ex:
            for i, why in ex.map(make_one, todo):
                print(i, "KEPT" if why is None else "dropped: " + why, flush=True)
    elif mode == "run":
        allp = "--all" in sys.argv
        every = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
        d = HERE + "/seeded"
        for i in sorted(os.listdir(d)):
            if ids and i not in ids:
                continue
            prop = json.load(open("%s/%s/meta.json" % (d, i)))["property"]
            sid, res = judge(i, "%s/%s/patch.diff" % (d, i), every if allp else [prop])
            if isinstance(res, str):
                print(i, res, flush=True)
                continue
            own = res[prop]
            caught = own[0] == 1 and any("VIOLATION property=%s" % prop in l for l in own[2])
            print("%-28s %s %s %5.1fs %s %s" % (i, prop, "caught" if caught else "MISSED(rc=%d)" % own[0], own[1],
                                               [p for p in res if p != prop and res[p][0] == 1], "" if caught else own[2]), flush=True)


if __name__ == "__main__":
    main()
