#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (between the markers) from the seeds, the known findings and the manifest."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rows():
    out = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
    for s in sorted(os.listdir(os.path.join(here, "seeded"))):
        m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"]))
    return out


def findings():
    out = ["| property | status | what |", "|---|---|---|"]
    for d in json.load(open(os.path.join(here, "known-findings.json"))):
        out.append("| %s | %s | %s |" % (d["property"], "fixed: " + d["commit"] if d["status"] == "fixed" else "recorded", d["what"].replace("|", "\\|")))
    return out


path = os.path.join(here, "DESIGN.md")
s = open(path).read()
for name, make in (("seeds", rows), ("findings", findings)):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n".join(make()) + "\n" + s[j:]
open(path, "w").write(s)
