#!/usr/bin/env python3
"""Puts the table of planted bugs (seeded/*/meta.json and seeded/caught.json) into section 8 of DESIGN.md."""
import json, glob, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], caught.get(n, "not tried")))
txt = ("## 8. Planted bugs\n\nEach was written from the text of its property and the code, confirmed to pass the existing tests and to fail its own\n"
       "demonstration.  The last column names the checks that report it.\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = s.replace("@SEEDS@", txt) if "@SEEDS@" in s else re.sub(r"## 8\. Planted bugs.*?(?=\n## 9\.)", lambda _: txt + "\n", s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
