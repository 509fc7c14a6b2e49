#!/usr/bin/env python3
"""Fill the columns of cases and seconds of the table in DESIGN.md from the evidence of quick runs."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
lines = open(path).read().split("\n")
for i, l in enumerate(lines):
    m = re.match(r"\| (C\d\d) \|", l)
    if not m:
        continue
    try:
        d = json.load(open(os.path.join(root, "evidence", m[1] + ".json")))
    except OSError:
        continue
    if d["tier"] != "quick":
        continue
    cells = l.strip("|").split(" | ")
    cells[-2] = f"{d['coverage']['evaluations']:,}".replace(",", " ")
    cells[-1] = f"{max(1, round(d['wall_s']))} "
    lines[i] = "|" + " | ".join(cells) + "|"
open(path, "w").write("\n".join(lines))
