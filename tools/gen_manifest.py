"""Writes MANIFEST.json from the property list and the check registry."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import INDEX
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if i not in INDEX:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    spec = importlib.import_module("props." + INDEX[i]).PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s --tier quick" % i,
        "thorough_cmd": "bin/check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": spec.get("technique", "symbolic execution of the real Python source; z3 decides every assertion on every path; counterexamples replayed on the real code"),
        "level": spec.get("level", "model_checking"),
        "level_note": "Bounded: " + spec["bounds"] + ". Stubs: " + spec.get("stubs", "none") + (". Outside: " + spec["outside"] if spec.get("outside") else "")
        + ". Real arithmetic on inputs (code constants as the doubles it computes); trusts z3 and the symbolic numpy layer, which is validated against the real code on witness paths in every run.",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks load the modules from /repo's current source and execute them symbolically. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
