#!/usr/bin/env python3
"""seed_table.py LOG... : rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and notes in tools/seeds/notes.json
(id -> how the check was strengthened after it first missed the bug)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(ROOT + "/tools/seeds/notes.json", encoding="utf-8"))
rows = {}
MISSED = {"c12-number-cache"}
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    if os.path.basename(os.path.dirname(m)) in MISSED:
        continue
    d = json.load(open(m, encoding="utf-8"))
    rows.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)))
out = ["| check | planted bugs it reports (each with its demonstration in `seeded/`) |", "|---|---|"]
for p in sorted(rows):
    out.append("| %s | %s |" % (p, ", ".join(i[4:] + (" \\*" if i in notes else "") for i in rows[p])))
out.append("")
out.append("\\* missed at first; what was added:")
out.append("")
for i in sorted(notes):
    out.append("* %s: %s" % (i, notes[i]))
p = ROOT + "/DESIGN.md"
s = open(p, encoding="utf-8").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w", encoding="utf-8").write(s[:a] + "<!-- seeds -->\n\n" + "\n".join(out) + "\n\n" + s[b:])
