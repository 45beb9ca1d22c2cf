"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | check | needs | breaks |", "|----|----|----|----|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->\n"
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->\n", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
