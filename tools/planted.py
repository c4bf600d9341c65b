#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (run from anywhere)."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
missed = json.load(open(os.path.join(here, "tools", "missed.json")))
rows = ["| change | needs | caught by | first missed |", "|---|---|---|---|"]
d = os.path.join(here, "seeded")
for i in sorted(os.listdir(d), key=lambda i: (json.load(open(os.path.join(d, i, "meta.json")))["property"], i)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append("| %s: %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m["property"], missed.get(i, "")))
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
if "@@TABLE@@" in t:
    t = t.replace("@@TABLE@@", "<!--table-->\n" + "\n".join(rows) + "\n<!--end-->")
else:
    t = re.sub(r"<!--table-->.*?<!--end-->", lambda _: "<!--table-->\n" + "\n".join(rows) + "\n<!--end-->", t, flags=re.S)
open(f, "w").write(t)
