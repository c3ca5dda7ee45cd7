#!/usr/bin/python3
"""rewrite the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
a = t.index("## Planted bugs")
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
t = t[:a] + """## Planted bugs

`seeded/<id>/`; every one is confirmed by `tools/seedtest.py --tests` (applies, builds, demonstration 0 on the clean and
1 on the changed tree, stable tests pass).  Each of these %d is caught by the quick check of its own property
(`tools/seedtest.py --checks`).  The table is written by `tools/seedtable.py`.

| id | caught by | what it breaks | needs |
|---|---|---|---|
""" % len(rows) + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(t)
