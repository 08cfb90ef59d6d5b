#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
head = "## 6. Planted bugs"
text = """%s

Each of these builds, passes the repository's tests, and is shown by its own demonstration. All are caught by the quick
check of the property they break (`tools/trybugs.py` applies each to /repo, runs that check, and undoes it).

| change | caught by | needs | what it breaks |
|---|---|---|---|
%s
""" % (head, "\n".join(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = s.split(head)[0].rstrip("\n") + "\n\n" + text
open(p, "w").write(s)
print(len(rows), "planted bugs")
