#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
mark = "## Planted bugs\n"
s = s[:s.index(mark)] + mark + """
`seeded/` holds the changes planted; each is reported by the quick check of the
property it was planted against (last column: what had to be strengthened first).

| change | caught by | needs | strengthened first |
|---|---|---|---|
"""
MORE = {"sol-update-factor": "configurations that share modulus, tables or factor",
        "sign-overlap": "messages that overlap the output at any offset",
        "go-static-stack": "rounds of repeated concurrent verification"}
try:
    MORE.update(json.load(open(os.path.join(ROOT, "tools", "strengthened.json"))))
except FileNotFoundError:
    pass
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), MORE.get(d, ""))
open(p, "w").write(s)
