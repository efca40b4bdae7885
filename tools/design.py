#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md: design.py RESULTS (lines 'ID STATUS NOTE')."""
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
for line in open(sys.argv[1]):
    k, s, *n = line.strip().split(' ', 2)
    notes[k] = (s, n[0] if n else '')
print('| bug | property | breaks | needs | caught by |')
print('|---|---|---|---|---|')
for i in sorted(os.listdir(os.path.join(TOP, 'seeded')), key=lambda i: int(i[1:])):
    m = json.load(open(os.path.join(TOP, 'seeded', i, 'meta.json')))
    s, n = notes.get(i, ('?', ''))
    print('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], s + (', ' + n if n else '')))
