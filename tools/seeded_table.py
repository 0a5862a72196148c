#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    print(f"| {d} | {m['needs']} | {m['what_it_breaks']} |")
