"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
rows = ["<!-- seeds -->", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(H, "seeded", "caught.json")))
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    f = os.path.join(H, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], caught.get(d, "not yet tried")))
rows.append("<!-- /seeds -->")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
