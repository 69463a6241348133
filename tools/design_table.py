#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 6)."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | property | needs | caught by |')
print('|---|---|---|---|')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    print(f"| {n} | {m['property']} | {m['needs']} | {m['property']} quick |")
