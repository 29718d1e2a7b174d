#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
p = here + '/DESIGN.md'
s = open(p).read()
head = "| bug | caught by | what it needs |\n|-----|-----------|---------------|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(p, 'w').write(s[:a] + "\n".join(rows) + s[b:])
