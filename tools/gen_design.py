"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
missed = set(open(os.path.join(root, "tools", "missed.txt")).read().split()) if os.path.exists(os.path.join(root, "tools", "missed.txt")) else set()
sd = os.path.join(root, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, "(missed) " + m["property"] if d in missed else m["property"], m["needs"].replace("|", "/")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
