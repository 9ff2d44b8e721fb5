#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and CAUGHT below."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the quick checks said when the bug was applied: the checks that report it, and the violation class
CAUGHT = json.load(open(os.path.join(ROOT, 'bin', 'bugs_caught.json')))
rows = ['| planted change | property | needs | caught by (quick tier) |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append('| %s: %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['property'], m['needs'], CAUGHT.get(i, 'not caught')))
p = os.path.join(ROOT, 'DESIGN.md'); s = open(p).read()
s = s[:s.index('<!--BUGS-->')] + '<!--BUGS-->\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
