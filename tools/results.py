#!/usr/bin/env python3
"""Write seeded/RESULTS.md from the logs of tools/catch.sh given as arguments (later lines win)."""
import json, os, re, sys
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
out = {}
p = os.path.join(d, "RESULTS.md")
if os.path.exists(p):
    for l in open(p):
        m = re.match(r"\| (\S+) \| (C\d\d) \| (\w+) \|", l)
        if m:
            out[m[1]] = (m[2], m[3])
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) (CAUGHT|MISSED)", l)
        if m:
            out[m[1]] = (m[2], m[3].lower())
with open(p, "w") as o:
    o.write("# Planted bugs and the quick checks\n\n| bug | check | result | breaks |\n|---|---|---|---|\n")
    for i in sorted(os.listdir(d)):
        if os.path.isdir(os.path.join(d, i)):
            meta = json.load(open(os.path.join(d, i, "meta.json")))
            c, r = out.get(i, (meta["property"], "untested"))
            o.write("| %s | %s | %s | %s |\n" % (i, c, r, meta["what_it_breaks"]))
