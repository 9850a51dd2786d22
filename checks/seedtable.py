#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json and seeded-results.txt."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.rstrip('\n').split('\t', 1) for l in open(V + '/seeded-results.txt') if '\t' in l)
print('| bug | property | needs | caught by |\n|----|----|----|----|')
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    print('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), res.get(b, '?')))
