"""Systematic single-site mutants of the code under check, to find behaviour no check looks at.

mutate.py FILE... [-k N]    one line per mutant that passes the repository's tests:
                            caught by which check, or SURVIVED (to be judged by hand)
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seedlib as sl

ORDER = {
    "advection_physics": "N01 S06 S01 F01 F08 F03 S07 S04 N02".split(),
    "euler_physics": "N02 F01 F03 F04 F06 F08 F09 F07 F02 F05 S05 S03 S04 S01".split(),
    "limiting": "L06 L01 L04 L02 L05 L03 S05 S09 S03".split(),
    "sensor": "N01 N02 L02 S09".split(),
    "rk": "T07 T02 T01 T03 T05 T06 T04 I05 S02".split(),
    "rk_coeffs": "T04 A02".split(),
    "solution": "I02 I01 I03 I05 S08 S09 S01 S02 T01 T06 F08".split(),
    "deck": ["I04", "I05"],
    "basis": "B01 S01 I01 E01 S07 L06".split(),
    "enhance": "E01 S07 S01 S09 A01".split(),
    "dg": "S01 S02 S06 S09".split(),
    "constants": "F01 I02 I05".split(),
    "main": ["I05"],
    "dg_stability": ["A01"],
    "aux_functions": ["A01", "A02"],
    "rk_stability": ["A02"],
}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.out = []
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.raw = src.encode()
        self.scope = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno, ".".join(self.scope)))

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
    visit_ClassDef = visit_FunctionDef

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            sw = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="]}
            for op in sw.get(type(n.ops[0]), []):
                self.add(n, "(%s %s %s)" % (l, op, r), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        if self.parts(n):
            for op in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"]}.get(type(n.op), []):
                self.add(n, "((%s) %s (%s))" % (l, op, r), "bin")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, "(%s)" % l, "drop")
            if isinstance(n.op, ast.Mult):
                self.add(n, "(%s)" % l, "drop")
                self.add(n, "(%s)" % r, "drop")
        self.generic_visit(n)

    def parts(self, n):
        return not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str))

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v > 0:
                self.add(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.001 if v else 1e-3), "const")

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, "(%s)" % self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.add(n, "(%s)" % self.text(v), "bool")
        self.generic_visit(n)

    def visit_Name(self, n):
        i = n.id
        if isinstance(n.ctx, ast.Load) and len(i) > 1 and i[-1] in "LR" and i != "L":
            self.add(n, i[:-1] + {"L": "R", "R": "L"}[i[-1]], "side")
        if isinstance(n.ctx, ast.Load) and i in ("ul", "ur", "al", "ar", "c1", "c2", "alphaL"):
            self.add(n, {"ul": "ur", "ur": "ul", "al": "ar", "ar": "al", "c1": "c2", "c2": "c1"}.get(i, i), "side")

    def visit_Call(self, n):
        f = self.text(n.func)
        if n.args:
            if f in ("np.fabs", "abs", "np.copy", "sorted", "copy.deepcopy", "np.sqrt"):
                self.add(n, "(%s)" % self.text(n.args[0]), "call")
            if f in ("np.maximum", "np.minimum"):
                self.add(n.func, {"np.maximum": "np.minimum", "np.minimum": "np.maximum"}[f], "call")
                self.add(n, "(%s)" % self.text(n.args[0]), "call")
                self.add(n, "(%s)" % self.text(n.args[1]), "call")
        self.generic_visit(n)

    def stmt(self, n):
        if self.scope and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            t = self.text(n)
            if not t.startswith("print"):
                self.add(n, "pass", "delete")

    def visit_Expr(self, n):
        self.stmt(n)
        if not isinstance(n.value, ast.Constant) and not self.text(n).startswith("print"):
            self.generic_visit(n)

    def visit_Assign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        op = {ast.Add: "-=", ast.Sub: "+="}.get(type(n.op))
        if op:
            self.add(n, "%s %s %s" % (self.text(n.target), op, self.text(n.value)), "aug")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "True", "if")
        self.add(n.test, "False", "if")
        self.generic_visit(n)


def mutants(path):
    src = open(path).read()
    c = Collect(src)
    c.visit(ast.parse(src))
    seen = set()
    for a, b, new, kind, line, scope in c.out:
        s = (c.raw[:a] + new.encode() + c.raw[b:]).decode()
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        yield (s, kind, line, scope, c.raw[a:b].decode().replace("\n", " ")[:70], new.replace("\n", " ")[:70])


def one(job):
    k, fname, m, every, full = job
    s, kind, line, scope, old, new = m
    stem = os.path.basename(fname)[:-3]
    tag = "mu_%s_%d" % (stem, k)
    d = sl.copy_repo(tag)
    head = "%s:%d %s [%s] %s -> %s" % (fname, line, scope, kind, old, new)
    try:
        open(d + "/repo/" + fname, "w").write(s)
        rc, out = sl.sh("/opt/venv/bin/python -W ignore -m pytest -x -q -p no:cacheprovider --timeout=60 tests", d + "/repo", 120)
        if rc:
            return None
        if sl.tests(d):
            return None
        props = ORDER.get(stem, []) + [p for p in every if p not in ORDER.get(stem, []) and full]
        odd = []
        for p in props:
            rc, out, t = sl.run_check(p, d + "/repo", tag + p)
            if rc == 1:
                return "caught  %-4s %s %s" % (p, head, odd)
            if rc:
                odd.append((p, rc))
        return "SURVIVED     %s %s" % (head, odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for f in os.listdir(sl.WORK):
            if f.startswith(("ev_" + tag, "rp_" + tag)):
                shutil.rmtree(os.path.join(sl.WORK, f), ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(sl.WORK, exist_ok=True)
    every = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
    files = [a for a in sys.argv[1:] if a.endswith(".py")]
    n = int(sys.argv[sys.argv.index("-n") + 1]) if "-n" in sys.argv else 0
    jobs = []
    for f in files:
        ms = list(mutants("/repo/" + f))
        if n and len(ms) > n:
            ms = random.Random(5).sample(ms, n)
        jobs += [(k, f, m, every, "--full" in sys.argv) for k, m in enumerate(ms)]
    print(len(jobs), "mutants", flush=True)
    with cf.ThreadPoolExecutor(int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 6) as ex:
        killed = 0
        for r in ex.map(one, jobs):
            if r is None:
                killed += 1
            else:
                print(r, flush=True)
    print(killed, "killed by the tests", flush=True)
