#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = "c06-prefix-boundary c13-static-counter c20-enum-memo c24-path-cache c04-bom c08-utf8-memo c09-count c12-array-index c25-self-reference c26-module-case".split()
try:
    MISSED += open(os.path.join(V, 'tools', 'plant', 'first-missed.txt')).read().split()
except FileNotFoundError:
    pass
rows = ["| bug | check | what it breaks |", "|---|---|---|"]
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    n = os.path.basename(os.path.dirname(p))
    rows.append("| %s%s | %s | %s |" % (n, "*" if n in MISSED else "", m['property'], m['what_it_breaks'].replace('|', '/')))
d = open(V + '/DESIGN.md').read()
d = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
