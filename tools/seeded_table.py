#!/usr/bin/env python3
"""Author's tool (no check uses it): rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{VERIF}/DESIGN.md").read()
lines = s.splitlines()
at = [i for i, l in enumerate(lines) if re.match(r"\* `c\d\d-", l)]
first, last = at[0], at[-1]
while last + 1 < len(lines) and lines[last + 1].strip():
    last += 1
rows = []
for n in sorted(os.listdir(f"{VERIF}/seeded")):
    m = json.load(open(f"{VERIF}/seeded/{n}/meta.json"))
    rows.append(f"* `{n}`: {m['needs'].rstrip('.')}.")
open(f"{VERIF}/DESIGN.md", "w").write("\n".join(lines[:first] + rows + lines[last + 1:]) + "\n")
print(len(rows), "rows")
