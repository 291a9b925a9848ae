#!/usr/bin/env python3
"""design_matrix.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted | caught by | what it needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j.get("caught_by", j["property"]), j["needs"].replace("|", "\\|")))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- matrix -->.*<!-- end -->", lambda _: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- end -->", t, flags=re.S)
open(p, "w").write(t)
