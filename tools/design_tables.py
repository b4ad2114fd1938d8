#!/usr/bin/env python3
"""Prints the tables of DESIGN.md which follow from other files (seeded bugs)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    print('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('\n', ' ')))
