#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + '/seeded/*/meta.json'):
    d = json.load(open(f))
    rows.append((d['property'], os.path.basename(os.path.dirname(f)), ' '.join(d['needs'].split())))
s = open(root + '/DESIGN.md').read()
mark = "### Which check catches which\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\nEvery one is reported by the quick check of its own property:\n\n| property | planted bug | needs |\n|---|---|---|\n"
for p, n, w in sorted(rows):
    s += "| %s | %s | %s |\n" % (p, n, w.replace('|', '/'))
open(root + '/DESIGN.md', 'w').write(s)
