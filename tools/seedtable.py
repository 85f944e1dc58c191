#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import collections
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs -->"
by = collections.defaultdict(list)
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    by[m["property"]].append((i, m["what_it_breaks"]))
s = open(V + "/DESIGN.md").read().split(MARK)[0]
s += MARK + "\n"
for p in sorted(by):
    s += "\n**%s**\n\n" % p
    for i, w in by[p]:
        s += "* %s: %s\n" % (i, w)
open(V + "/DESIGN.md", "w").write(s)
