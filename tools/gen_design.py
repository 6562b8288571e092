#!/usr/bin/env python3
"""Writes DESIGN.md: tools/DESIGN.head.md and the table of planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(HERE, "tools/DESIGN.head.md"), encoding="utf-8").read()
out += "## Planted bugs\n\nEach is caught by the quick check of its own property.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d = json.load(open(f))
    out += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/"), d.get("caught", d["property"]))
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(out)
