#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted bug | Caught by | What it breaks | Needs |", "| --- | --- | --- | --- |"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    clean = lambda t: " ".join(str(t).split()).replace("|", "\\|")
    rows.append(f"| {d} | {m['property']} | {clean(m['what_it_breaks'])} | {clean(m['needs'])} |")
f = here + "/DESIGN.md"
s = open(f).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "@SEEDS@" in s: s = s.replace("@SEEDS@", new)
else: s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, s, flags=re.S)
open(f, "w").write(s)
