#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
by = {}
for m in glob.glob('/verif/seeded/*/meta.json'):
    by.setdefault(json.load(open(m))['property'], []).append(os.path.basename(os.path.dirname(m)))
rows = ''.join('| %s | %s |\n' % (p, ', '.join('`%s`' % b for b in sorted(by[p]))) for p in sorted(by))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(\| property \| planted changes.*\n\|-\|-\|\n)(\|.*\n)*', lambda m: m.group(1) + rows, s)
open('/verif/DESIGN.md', 'w').write(s)
