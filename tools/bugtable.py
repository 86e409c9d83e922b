#!/usr/bin/env python3
"""bugtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. For development only."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- planted -->\n", "<!-- /planted -->\n"
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
d = open(root + "/DESIGN.md").read()
i, j = d.index(A) + len(A), d.index(B)
d = d[:i] + "| change | caught by (quick) | needs | breaks |\n| --- | --- | --- | --- |\n" + "".join(rows) + d[j:]
open(root + "/DESIGN.md", "w").write(d)
print(len(rows), "rows")
