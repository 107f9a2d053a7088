"""Behaviour-preserving rewrites of the repository, to see that no check raises an alarm on them.

refactor.py [names...]   applies each tools/refactors/<name>.py (functions replacing those of the
                         same qualified name) to a scratch copy, runs the tests, then every check
File format: '# @ dg1d/file.py Class.method' lines, each followed by the new source (already indented
as a top level function; it is re-indented for methods).  '# @+ dg1d/file.py' adds code after the imports;
'# @= dg1d/file.py' lists (old text, new text); '# @- dg1d/file.py' gives a line and what replaces the file from it on.
"""
import ast
import json
import os
import shutil
import sys
import textwrap
import concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seedlib as sl


def find(tree, qual):
    node = tree
    for part in qual.split("."):
        for c in node.body:
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part:
                node = c
                break
        else:
            raise SystemExit("no " + qual)
    return node


def apply(root, path):
    blocks, cur = [], None
    for line in open(path):
        if line.startswith("# @"):
            cur = [line.split()[1:], []]
            blocks.append(cur)
        elif cur:
            cur[1].append(line)
    for head, lines in blocks:
        src = "".join(lines).strip("\n")
        f = os.path.join(root, head[1])
        text = open(f).read()
        tree = ast.parse(text)
        rows = text.split("\n")
        if head[0] == "@=":                       # a list of (old text, new text)
            for old, new in ast.literal_eval(src):
                assert text.count(old) == 1, (old, text.count(old))
                text = text.replace(old, new)
            rows = text.split("\n")
        elif head[0] == "@-":                     # everything from a line on, replaced
            mark, new = src.split("\n", 1)
            rows = text[:text.index(mark)].split("\n")[:-1] + new.split("\n")
        elif head[0] == "@+":
            last = max(n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)))
            rows[last:last] = ["", src, ""]
        else:
            n = find(tree, head[2])
            ind = "    " * head[2].count(".")
            rows[n.lineno - 1:n.end_lineno] = textwrap.indent(src, ind).split("\n")
        open(f, "w").write("\n".join(rows))


def one(name, props):
    d = sl.copy_repo("rf_" + name)
    try:
        apply(d + "/repo", os.path.join(HERE, "tools/refactors", name + ".py"))
        why = sl.tests(d)
        if why:
            print(name, "does not keep the tests:", why[-600:])
            return
        with cf.ThreadPoolExecutor(4) as ex:
            for p, (rc, out, t) in zip(props, ex.map(lambda p: sl.run_check(p, d + "/repo", name + p), props)):
                if rc or "-v" in sys.argv:
                    print("%s %s rc=%d %.1fs" % (name, p, rc, t))
                    print("   ", "\n    ".join(out.splitlines()[-6:])[:1500], flush=True)
        print(name, "done", flush=True)
    finally:
        if "-k" not in sys.argv:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(sl.WORK, exist_ok=True)
    every = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    props = [a for a in args if a in every] or every
    names = [a for a in args if a not in every] or sorted(f[:-3] for f in os.listdir(HERE + "/tools/refactors"))
    for n in names:
        one(n, props)
