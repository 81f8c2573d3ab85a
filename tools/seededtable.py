#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(V, "tools", "caught.json"), encoding="utf-8") as f:
    also = json.load(f)      # bug -> checks, where not the one of its property
rows = ["| bug | breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", ""))):
    name = os.path.basename(d[:-1])
    with open(os.path.join(d, "meta.json"), encoding="utf-8") as f:
        m = json.load(f)
    rows.append(f"| {name} | {m['property']}: {m['what_it_breaks']} | "
                f"{also.get(name, m['property'])} |")
path = os.path.join(V, "DESIGN.md")
with open(path, encoding="utf-8") as f:
    text = f.read()
text = re.sub(r"(?s)<!-- bugs -->.*<!-- /bugs -->", lambda m: "\n".join(
    ["<!-- bugs -->", *rows, "<!-- /bugs -->"]), text)
with open(path, "w", encoding="utf-8") as f:
    f.write(text)
print(len(rows) - 2)
