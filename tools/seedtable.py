#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    f = lambda k: re.sub(r"\s+", " ", str(m.get(k, ""))).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (d.name, f("property"), f("what_it_breaks"), f("needs")))
t = "\n".join(rows)
p = V / "DESIGN.md"
s = p.read_text()
b, e = "<!-- seeded:begin -->", "<!-- seeded:end -->"
if b not in s:
    s = s.rstrip() + "\n\n## Planted bugs\n\nEvery one builds, passes the tests and is reported by the check of its property\n(`tools/plant.py` tries them).\n\n%s\n%s\n" % (b, e)
i, j = s.index(b), s.index(e)
p.write_text(s[:i] + b + "\n" + t + "\n" + s[j:])
