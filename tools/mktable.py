#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two comments)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"unseen-by-first": "first missed; cameras that do not see the first target added",
          "repeated-views": "first missed; repeated views added to the scenes"}
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"].strip(), MISSED.get(d, "found at once")))
t = "| property | id | needs | its check |\n|---|---|---|---|\n" + "".join(f"| {p} | {d} | {n} | {f} |\n" for p, d, n, f in sorted(rows))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"@TABLE@|<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + t + "<!-- /planted -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
