#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # first missed -> what was strengthened
 "p12-blank-graph": "first missed; universes 7-19 added",
 "p15-prefix-count": "first missed; IssueOK now fixes the text issued",
 "p19-literal-route": "first missed; random palettes of terms",
 "p21-blank-case": "first missed; richer labels and texts",
 "p21-typed-trim": "first missed; richer labels and texts",
}
try: MISSED.update(json.load(open(os.path.join(V, "tools/missed.json"))))
except FileNotFoundError: pass
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {MISSED.get(i, '')} |")
p = V + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("| planted |")]
open(p, "w").write(head + "| planted | caught by | needs | note |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
